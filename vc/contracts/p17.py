"""Quantile-parameterised distributions.

A valid triplet is written in the space in which the distribution is built: with distance d > 0 of the
median to its nearer neighbour and width 2 d cosh(a), a > 0, on the skewed sides, every increasing triplet
is met exactly once.
"""
import numpy as np

from ..spec import bounded, contract

Q = "quantile_matching."
SKEW = ["right", "left", "symmetric"]


def _alpha(S):
    return S.real("alpha", 0 if S.sym else 0.02, 0.5 if S.sym else 0.45, lo_open=True, hi_open=True)


def _skew(S):
    return S.choice("skew", SKEW)


def _triplet(S, skew=None):
    """an increasing triplet of reals, of either skew"""
    skew = skew or _skew(S)
    x = S.real("start", None if S.sym else -2.0, None if S.sym else 2.0)
    d = S.real("gap", 0 if S.sym else 0.05, None if S.sym else 1.0, lo_open=True)
    a = S.real("stretch", 0 if S.sym else 0.1, None if S.sym else 2.0, lo_open=True)
    if skew == "symmetric":
        return x, x + d, x + 2 * d
    w = 2 * d * S.np.cosh(a)
    return (x, x + d, x + w) if skew == "right" else (x, x + w - d, x + w)


def _levels(S):
    lo, hi = (0, 1) if S.sym else (1e-3, 1 - 1e-3)
    return [S.real(k, lo, hi, lo_open=True, hi_open=True) for k in ("x", "y")]


def _shape(S, q, lo=None, hi=None, **kw):
    """quantile and distribution function at arbitrary levels"""
    x, y = _levels(S)
    S.compare(x, y)
    a, b = q.ppf(x, **kw), q.ppf(y, **kw)
    if lo is not None:
        S.ensure("quantiles stay above the lower bound", S.gt(a, lo) if S.sym else S.ge(a, lo))
    if hi is not None:
        S.ensure("quantiles stay below the upper bound", S.lt(a, hi) if S.sym else S.le(a, hi))
    S.ensure("the quantile function is increasing", S.implies(S.lt(x, y), lambda: S.lt(a, b) if S.sym else S.le(a, b)))
    if S.sym or abs(a) < 1e6 and (lo is None or a - lo > 1e-6) and (hi is None or hi - a > 1e-6):
        S.ensure("the distribution function of a quantile is its level", S.eq(q.cdf(a, **kw), x, 1e-5, 1e-6))


def _back(S, q, z, **kw):
    p = q.cdf(z, **kw)
    S.ensure("levels lie between 0 and 1", S.and_(S.gt(p, 0), S.lt(p, 1)) if S.sym else S.and_(S.ge(p, 0), S.le(p, 1)))
    if S.sym or 1e-6 < p < 1 - 1e-6:
        S.ensure("the quantile of the level of a value is the value", S.eq(q.ppf(p, **kw), z, 1e-4, 1e-4))


def _points(S, q, alpha, low, med, high, **kw):
    for name, p, want in (("low", alpha, low), ("median", 0.5, med), ("high", 1 - alpha, high)):
        S.ensure("the %s quantile is reproduced" % name, S.eq(q.ppf(p, **kw), want, 1e-6, 1e-7))


def _rules(S, t, more):
    for a in t:
        for b in (*t, *more):
            S.exp_rule(a, b - a)


def _z(S):
    return S.real("z", None if S.sym else -3.0, None if S.sym else 3.0)


def _bounds(S):
    l = S.real("l", None if S.sym else -5.0, None if S.sym else 5.0)
    return l, l + S.real("range", 0 if S.sym else 0.1, None if S.sym else 10.0, lo_open=True)


@contract("P17", [Q + "J_QPD_S.__init__", Q + "J_QPD_S.ppf", Q + "J_QPD_S.cdf"])
def semibounded(S):
    m = S.mod("quantile_matching")
    S.decide()
    version = S.choice("version", ["normal", "logistic"])
    alpha = _alpha(S)
    l = _bounds(S)[0]
    t, z = _triplet(S), _z(S)
    low, med, high = [l + S.exp(v) for v in t]
    q = m.J_QPD_S(alpha, low, med, high, l, version)
    _shape(S, q, l, inner=True)
    _rules(S, t, [z])
    _points(S, q, alpha, low, med, high, inner=True)
    _back(S, q, l + S.exp(z), inner=True)


@contract("P17", [Q + "J_QPD_B.__init__", Q + "J_QPD_B.ppf", Q + "J_QPD_B.cdf"])
def bounded_range(S):
    m = S.mod("quantile_matching")
    S.decide()
    version = S.choice("version", ["normal", "logistic"])
    phi = (m.norm if version == "normal" else m.logistic)()
    alpha = _alpha(S)
    l, u = _bounds(S)
    skew = _skew(S)
    t, z = _triplet(S, skew), _z(S)
    low, med, high = [l + (u - l) * phi.cdf(v) for v in t]
    q = m.J_QPD_B(alpha, low, med, high, l, u, version)
    _shape(S, q, l, u, inner=True)
    if S.sym and skew == "symmetric":
        # the code replaces the vanishing stretch of a symmetric triplet by a tiny one
        S.ensure("the median quantile is reproduced", S.eq(q.ppf(0.5, inner=True), med))
    else:
        _points(S, q, alpha, low, med, high, inner=True)
    _back(S, q, l + (u - l) * phi.cdf(z), inner=True)


def _extended(S, m):
    """keyword arguments of an extended distribution"""
    version = S.choice("version", ["normal", "logistic", "sinhlogistic", "sinhlogistic>0", "sinhlogistic<0"])
    if version == "sinhlogistic>0":
        shape = S.real("shape", 0, None if S.sym else 2.0, lo_open=True)
    elif version == "sinhlogistic<0":
        shape = S.real("shape", None if S.sym else -2.0, 0, hi_open=True)
    else:
        shape = 0
    return dict(version=version.rstrip("<>0"), shape=shape)


def _odd(S, phi, alpha, x, y):
    """facts about a base distribution that the extended distributions rely on"""
    a, b = phi.ppf(x), phi.ppf(y)
    S.ensure("base quantiles are increasing", S.implies(S.lt(x, y), lambda: S.lt(a, b)))
    S.ensure("level of a base quantile", S.eq(phi.cdf(a), x, 1e-6, 1e-9))
    S.ensure("base quantiles are symmetric", S.eq(phi.ppf(1 - x), -a, 1e-9, 1e-9))
    S.ensure("base median is 0", S.eq(phi.ppf(0.5), 0, 0, 1e-12))
    S.ensure("base quantile at the upper level is 1", S.eq(phi.ppf(1 - alpha), 1, 1e-9, 1e-9))
    S.ensure("base quantile at the lower level is -1", S.eq(phi.ppf(alpha), -1, 1e-9, 1e-9))


@contract("P17", [Q + k for k in ("BaseDist.__init__", "BaseDist.ppf", "BaseDist.cdf", "SinhLogistic.__init__", "SinhLogistic.ppf", "SinhLogistic.cdf")])
def base(S):
    m = S.mod("quantile_matching")
    S.decide()
    alpha = _alpha(S)
    k = _extended(S, m)
    phi = m.norm() if k["version"] == "normal" else m.logistic() if k["version"] == "logistic" else m.SinhLogistic(shape=k["shape"])
    d = m.BaseDist(phi, alpha)
    x, y = _levels(S)
    _odd(S, d, alpha, x, y)
    z = _z(S)
    p = d.cdf(z)
    S.ensure("base levels lie between 0 and 1", S.and_(S.gt(p, 0), S.lt(p, 1)) if S.sym else S.and_(S.ge(p, 0), S.le(p, 1)))
    if S.sym or 1e-6 < p < 1 - 1e-6:
        S.ensure("quantile of a base level", S.eq(d.ppf(p), z, 1e-6, 1e-6))


class _Base:
    """what `base` states about BaseDist, and nothing else"""

    def __init__(self, S, alpha):
        from .. import sci

        self.S, self.alpha = S, alpha
        self.d = sci.SymDist(None, "base")

    def ppf(self, x):
        S = self.S
        x = S.lifted(x)
        for q, v in ((0.5, 0.0), (self.alpha, -1.0), (1 - self.alpha, 1.0)):
            if S.known(S.eq(x, q)):
                return v
        return self.d.ppf(x)

    def cdf(self, x):
        return self.d.cdf(x)


def _base_contract(S, m):
    if S.sym:
        S.stub(m, "BaseDist", lambda dist, alpha: _Base(S, alpha))


def _version(S, m):
    """in the proof the base distribution is only known by its contract"""
    return {} if S.sym else _extended(S, m)


E_ = [Q + "unconstrained_calc"]


def _cls(c):
    return [Q + c + k for k in (".__init__", ".ppf", ".cdf")] + E_


@contract("P17", _cls("J_QPD_extended_U"))
def extended_unbounded(S):
    m = S.mod("quantile_matching")
    S.decide()
    alpha = _alpha(S)
    t, z = _triplet(S), _z(S)
    _base_contract(S, m)
    q = m.J_QPD_extended_U(alpha, *t, **_version(S, m))
    _shape(S, q)
    _points(S, q, alpha, *t)
    _back(S, q, z)


@contract("P17", _cls("J_QPD_extended_S"))
def extended_semibounded(S):
    m = S.mod("quantile_matching")
    S.decide()
    alpha = _alpha(S)
    l = _bounds(S)[0]
    t, z = _triplet(S), _z(S)
    low, med, high = [l + S.exp(v) for v in t]
    _base_contract(S, m)
    q = m.J_QPD_extended_S(alpha, low, med, high, l, **_version(S, m))
    _shape(S, q, l)
    _rules(S, t, [z])
    _points(S, q, alpha, low, med, high)
    _back(S, q, l + S.exp(z))


@contract("P17", _cls("J_QPD_extended_B"))
def extended_bounded(S):
    m = S.mod("quantile_matching")
    S.decide()
    alpha = _alpha(S)
    l, u = _bounds(S)
    t, z = _triplet(S), _z(S)
    if S.sym:
        # what `transforms` states about the map between the range and the real line
        from .. import sci

        phi = sci.SymDist(None, "range")
        S.stub(m, "transform_from_bounds", lambda x, l, u: phi.ppf((x - l) / (u - l)))
        S.stub(m, "back_transform_in_bounds", lambda z, l, u: l + (u - l) * phi.cdf(z), needed=False)

        def inside(v):
            return l + (u - l) * phi.cdf(v)
    else:

        def inside(v):
            return l + (u - l) / (1 + S.exp(-v))

    low, med, high = map(inside, t)
    _base_contract(S, m)
    q = m.J_QPD_extended_B(alpha, low, med, high, l, u, **_version(S, m))
    _shape(S, q, l, u)
    _points(S, q, alpha, low, med, high)
    _back(S, q, inside(z))


# ------------------------------------------------------------------ samples, rejection, chain
def _arrays(S, n, lo, hi):
    names = ("low", "med", "high")
    if S.sym or "low" in S.given:
        return [S.array(k, n, lo, hi, lo_open=True, hi_open=True) for k in names]
    v = np.sort(lo + (hi - lo if hi is not None else 10.0) * S.rng.uniform(0.05, 0.95, (3, n)), axis=0)
    v += np.array([-0.01, 0.0, 0.01])[:, None] * (hi - lo if hi is not None else 1.0)
    for k, a in zip(names, v):
        S._rec(k, a)
    return list(v)


def _which(S):
    """constructor of one of the array-capable distributions with bounds"""
    m = S.mod("quantile_matching")
    kind = S.choice("kind", ["S", "B"])
    version = S.choice("version", ["normal", "logistic"])
    l, u = _bounds(S)
    if kind == "S":
        return (lambda a, x, y, z: m.J_QPD_S(a, x, y, z, l, version)), l, None
    return (lambda a, x, y, z: m.J_QPD_B(a, x, y, z, l, u, version)), l, u


def _shaped(S, a, *dims):
    sh = S.shape(a)
    return len(sh) == len(dims) and S.and_(*[S.eq(p, d) for p, d in zip(sh, dims)])


def _increasing(S, n, low, med, high):
    S.assume_forall(n, lambda i: S.and_(S.lt(S.at(low, i), S.at(med, i)), S.lt(S.at(med, i), S.at(high, i))))


@contract("P17", [Q + "J_QPD_S.ppf", Q + "J_QPD_S.cdf", Q + "J_QPD_B.ppf", Q + "J_QPD_B.cdf"])
def samples(S):
    """the distribution of a sample in an array is the one built from its triplet alone"""
    S.opaque()
    mk, lo, hi = _which(S)
    n, k = S.dim("n", 2), S.dim("k", 2)
    alpha = _alpha(S)
    low, med, high = _arrays(S, n, lo, hi)
    _increasing(S, n, low, med, high)
    q = mk(alpha, low, med, high)
    ends = (0, 1) if S.sym else (0.01, 0.99)
    p = S.array("p", k, *ends, lo_open=True, hi_open=True)
    own = S.array("own", n, *ends, lo_open=True, hi_open=True)
    x = S.real("x", *ends, lo_open=True, hi_open=True)
    top = hi if hi is not None else None if S.sym else lo + 20.0
    v = S.array("v", k, lo, top, lo_open=True, hi_open=True)
    w = S.array("w", n, lo, top, lo_open=True, hi_open=True)

    def alone(i):
        return mk(alpha, S.at(low, i), S.at(med, i), S.at(high, i))

    def same(a, b):
        return S.eq(a, b, 1e-7, 1e-9)

    outer, inner, single, shared = q.ppf(p), q.ppf(own, inner=True), q.ppf(x), q.ppf(x, inner=True)
    S.ensure("one row per level, one column per sample", _shaped(S, outer, k, n))
    S.ensure("one value per sample", S.and_(_shaped(S, inner, n), _shaped(S, single, n), _shaped(S, shared, n)))
    S.ensure_forall("quantiles of all levels", (k, n), lambda j, i: same(S.at(outer, j, i), alone(i).ppf(S.at(p, j), inner=True)))
    S.ensure_forall("quantile of the own level", n, lambda i: same(S.at(inner, i), alone(i).ppf(S.at(own, i), inner=True)))
    S.ensure_forall("quantile of a common level", n, lambda i: S.and_(same(S.at(single, i), alone(i).ppf(x, inner=True)), same(S.at(shared, i), alone(i).ppf(x, inner=True))))
    outer, inner = q.cdf(v), q.cdf(w, inner=True)
    S.ensure("levels: one row per value, one column per sample", _shaped(S, outer, k, n))
    S.ensure("levels: one value per sample", _shaped(S, inner, n))
    S.ensure_forall("levels of all values", (k, n), lambda j, i: same(S.at(outer, j, i), alone(i).cdf(S.at(v, j), inner=True)))
    S.ensure_forall("level of the own value", n, lambda i: same(S.at(inner, i), alone(i).cdf(S.at(w, i), inner=True)))


@contract("P17", [Q + "J_QPD_S.__init__", Q + "J_QPD_B.__init__"])
def rejected(S):
    mk, lo, hi = _which(S)
    n = S.dim("n", 1)
    alpha = _alpha(S)
    low, med, high = _arrays(S, n, lo, hi)
    side = S.choice("side", ["low", "high", "fine"])
    if side == "fine":
        _increasing(S, n, low, med, high)
        exc, _ = S.call(mk, alpha, low, med, high)
        S.ensure("increasing triplets are accepted", exc is None)
        return
    i = S.int("i", 0)
    S.assume(S.lt(i, n))
    if not S.sym and "low" not in S.given:
        (low if side == "low" else high)[i] = med[i] + (0.01 if side == "low" else -0.01)
    S.assume(S.gt(S.at(low, i), S.at(med, i)) if side == "low" else S.lt(S.at(high, i), S.at(med, i)))
    exc, _ = S.call(mk, alpha, low, med, high)
    S.ensure("a triplet that is not increasing is rejected", isinstance(exc, ValueError))


@contract("P17", [Q + "J_QPD_extended_U.__init__", Q + "J_QPD_extended_S.__init__", Q + "J_QPD_extended_B.__init__"])
def rejected_extended(S):
    m = S.mod("quantile_matching")
    kind = S.choice("kind", ["U", "S", "B"])
    l, u = _bounds(S)
    top = u if kind == "B" else None if S.sym else 10.0
    bot = l if kind != "U" else None if S.sym else -10.0
    low, med, high = [S.real(k, bot, top, lo_open=True, hi_open=True) for k in ("low", "med", "high")]
    alpha = _alpha(S)
    S.assume(S.or_(S.gt(low, med), S.lt(high, med)))
    args = {"U": (), "S": (l,), "B": (l, u)}[kind]
    exc, _ = S.call(getattr(m, "J_QPD_extended_" + kind), alpha, low, med, high, *args)
    S.ensure("a triplet that is not increasing is rejected", isinstance(exc, ValueError))


class _Est:
    def __init__(self, z):
        self.z = z

    def predict(self, X):
        return self.z


@contract("P17", [Q + "QPD_RegressorChain.__init__", Q + "QPD_RegressorChain.predict", Q + "back_transform_in_bounds", Q + "back_transform_in_semibound_lower"])
def chain(S):
    m = S.mod("quantile_matching")
    bound = S.choice("bound", ["S", "B"])
    n = S.dim("n", 1)
    alpha = _alpha(S)
    l, u = _bounds(S)
    z = [S.array(k, n, None if S.sym else -5.0, None if S.sym else 5.0) for k in ("z_median", "z_low", "z_high")]
    c = m.QPD_RegressorChain(*map(_Est, z), bound, alpha=alpha, l=l, u=u)
    if S.sym:
        got = []

        def ctor(alpha, qv_low, qv_median, qv_high, l, u=None, version="normal"):
            got.append((alpha, qv_low, qv_median, qv_high, l, u, version))
            return got[-1]

        S.stub(m, "J_QPD_" + bound, ctor)
    low, med, high, q = c.predict(None)
    S.ensure_forall("predicted triplets are increasing", n, lambda i: S.and_(S.lt(S.at(low, i), S.at(med, i)), S.lt(S.at(med, i), S.at(high, i))))
    S.ensure_forall("predicted triplets stay inside the bounds", n, lambda i: S.and_(S.gt(S.at(low, i), l), S.lt(S.at(high, i), u) if bound == "B" else True))
    if S.sym:
        a, x, y, w, ll, uu, _ = got[-1]
        S.ensure("the distribution uses the level and bounds of the chain", S.and_(S.eq(a, alpha), S.eq(ll, l), S.eq(uu, u) if bound == "B" else True))
        S.ensure_forall("the distribution is built from the predicted triplet", n, lambda i: S.and_(*[S.eq(S.at(p, i), S.at(r, i)) for p, r in ((x, low), (y, med), (w, high))]))
        return
    for p, want in ((alpha, low), (0.5, med), (1 - alpha, high)):
        v = np.atleast_1d(q.ppf(p))
        S.ensure_forall("the distribution reproduces the predicted triplet", n, lambda i: S.eq(v[i], want[i], 1e-4, 1e-6))


@contract("P17", [Q + k for k in ("transform_from_bounds", "back_transform_in_bounds", "transform_from_semibound_lower", "back_transform_in_semibound_lower", "transform_from_semibound_upper", "back_transform_in_semibound_upper")])
def transforms(S):
    m = S.mod("quantile_matching")
    S.decide()
    kind = S.choice("kind", ["bounds", "lower", "upper"])
    l, u = _bounds(S)
    n = S.dim("n", 1)
    x = S.array("x", n, l if kind != "upper" else None, u if kind != "lower" else None, lo_open=True, hi_open=True)
    z = S.array("z", n, None if S.sym else -5.0, None if S.sym else 5.0)
    if kind == "bounds":
        to, back = (lambda v: m.transform_from_bounds(v, l, u)), (lambda v: m.back_transform_in_bounds(v, l, u))
    elif kind == "lower":
        to, back = (lambda v: m.transform_from_semibound_lower(v, l)), (lambda v: m.back_transform_in_semibound_lower(v, l))
    else:
        to, back = (lambda v: m.transform_from_semibound_upper(v, u)), (lambda v: m.back_transform_in_semibound_upper(v, u))
    there = to(x)
    again = back(there)
    S.ensure_forall("a value inside the bounds has a finite image", n, lambda i: S.isfinite(S.at(there, i)))
    S.ensure_forall("transform and back", n, lambda i: S.eq(S.at(again, i), S.at(x, i), 1e-6, 1e-8))
    v = back(z)
    S.ensure_forall("back transform lands inside the bounds", n, lambda i: S.and_(S.gt(S.at(v, i), l) if kind != "upper" else True, S.lt(S.at(v, i), u) if kind != "lower" else True))
    t = to(v)
    S.ensure_forall("back transform and transform", n, lambda i: S.eq(S.at(t, i), S.at(z, i), 1e-6, 1e-6))
    if kind == "bounds":
        unit = m.back_transform_in_bounds(z, 0, 1)
        mirror = m.back_transform_in_bounds(-z, 0, 1)
        S.ensure_forall("the bounds scale a fixed map of the real line", n, lambda i: S.eq(S.at(v, i), l + (u - l) * S.at(unit, i), 1e-9, 1e-9))
        S.ensure_forall("the map is symmetric", n, lambda i: S.eq(S.at(mirror, i), 1 - S.at(unit, i), 1e-9, 1e-9))
    S.ensure_forall("back transform keeps the order", (n, n), lambda i, j: S.implies(S.lt(S.at(z, i), S.at(z, j)), lambda: S.lt(S.at(v, i), S.at(v, j)) if kind != "upper" else S.gt(S.at(v, i), S.at(v, j))))
