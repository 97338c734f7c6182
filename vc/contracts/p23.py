"""Feature importances are normalised shares and refer to the current fit only."""
import numpy as np

from ..spec import bounded, contract
from . import util


@contract("P23", ["features.Feature.set_feature_bin_deviations_from_neutral"], trials=200)
def deviation(S):
    """average over the samples of the distance from neutral, for any data and factors"""
    n, b = S.dim("n", 1, big=40000), S.dim("b", 1)
    lex = S.array("lex", n, dtype="i", lo=0, hi=b)
    fac = S.array("factors", b + 1, kind="finite")
    neutral = S.real("neutral", -3, 3)
    f = util.feature(S, bins=b, lex=lex)
    f.factors_link = fac
    f0, l0 = S.copy(fac), S.copy(lex)
    exc, _ = S.call(f.set_feature_bin_deviations_from_neutral, neutral)
    S.ensure("no error", exc is None)
    if exc is not None:
        return
    S.ensure("every sample is counted once", S.eq(S.sum(b + 1, lambda j: util.binsum(S, n, l0, j, lambda i: 1.0)), n, 0, 0))
    got = f.bin_weighted_average
    S.ensure("average over the samples", S.eq(got * n, S.sum(n, lambda i: S.abs(S.at(f0, S.at(l0, i)) - neutral)), 1e-9, 1e-9))
    S.ensure("not negative", S.ge(got, 0, 0, 0))
    S.ensure_forall("factors unchanged", b + 1, lambda j: S.eq(S.at(f.factors_link, j), S.at(f0, j), 0, 0))


NAMES = [("a",), ("b",), ("a", "b"), (0,), ("long name",)]


def _estimator(S, k, types=False, pool=NAMES):
    """an estimator with k features"""
    e = util.make(S, "poisson", ["z"], {"z": S.mod("flags").IS_UNORDERED})
    ft = S.mod("features")
    ext = [S.choice("external%d" % j, [None, ft.FeatureTypes.external]) if types else None for j in range(k)]
    fs = [util.feature(S, pool[j], ftype=ext[j]) for j in range(k)]
    e.features = ft.FeatureList(fs)
    return e, fs


@contract("P23", ["base.CyclicBoostingBase.set_feature_importances"], trials=100)
def collected(S):
    """one value per current feature, nothing left of an earlier fit (0..4 features)"""
    k = S.choice("features", [0, 1, 2, 3, 4])
    e, fs = _estimator(S, k)
    stale = util.feature(S, ("stale",))
    e.feature_importances = {stale: 3.0, "x": 1.0}
    vals = [S.real("v%d" % j, 0, 10) for j in range(k)]
    order = []
    for f, v in zip(fs, vals):

        def dev(neutral, f=f, v=v):
            order.append((f, "deviation", neutral))
            f.bin_weighted_average = v

        f.set_feature_bin_deviations_from_neutral = dev
        f.prepare_feature = lambda f=f: order.append((f, "prepare", None))
    exc, _ = S.call(e.set_feature_importances)
    S.ensure("no error", exc is None)
    if exc is not None:
        return
    S.ensure("exactly the current features", len(e.feature_importances) == k and all(f in e.feature_importances for f in fs))
    for f, v in zip(fs, vals):
        if f in e.feature_importances:
            S.ensure("importance is the deviation of its feature", S.eq(e.feature_importances[f], v, 0, 0))
        mine = [(w, x) for g, w, x in order if g is f]
        S.ensure("deviations are taken after the values are final", [w for w, _ in mine] == ["prepare", "deviation"] and mine[-1][1] == e.neutral_factor_link)


@contract("P23", ["base.CyclicBoostingBase.get_feature_importances", "utils.get_normalized_values"], trials=300)
def shares(S):
    """for 1..4 features with any deviations: non-negative shares, proportional, summing to one"""
    k = S.choice("features", [1, 2, 3, 4])
    e, fs = _estimator(S, k, types=True)
    vals = [S.real("v%d" % j, 0, None) for j in range(k)]
    if not S.sym and S.rng.random() < 0.3 and "v0" not in S.given:
        vals = [S._rec("v%d" % j, 0.0 if S.rng.random() < 0.7 else v) for j, v in enumerate(vals)]
    e.feature_importances = {f: v for f, v in zip(fs, vals)}
    total = vals[0]
    for v in vals[1:]:
        total = total + v
    S.assume(S.or_(S.eq(total, 0, 0, 0), S.ge(total, 1e-6, 0, 0)))
    exc, imp = S.call(e.get_feature_importances)
    S.ensure("no error", exc is None)
    if exc is not None:
        return
    S.ensure("one entry per feature", len(imp) == k)
    if len(imp) != k:
        return
    for (name, share), f, v in zip(imp.items(), fs, vals):
        S.ensure("named after its group", str(name).startswith("_".join(str(c) for c in f.feature_group)))
        S.ensure("never negative", S.ge(share, 0, 0, 0))
        S.ensure("proportional to the deviation", S.eq(share * total, S.ite(S.eq(total, 0, 0, 0), 0.0, v), 1e-9, 0))
    s = list(imp.values())
    t = s[0]
    for v in s[1:]:
        t = t + v
    S.ensure("shares sum to one unless all are zero", S.implies(S.gt(total, 0), S.eq(t, 1.0, 1e-9, 0)))
    S.ensure("all zero stays zero", S.implies(S.eq(total, 0, 0, 0), S.eq(t, 0, 0, 0)))
    S.ensure("asking again gives the same", list(e.get_feature_importances()) == list(imp))


@contract("P23", ["base.CyclicBoostingBase.get_feature_importances"], trials=5)
def not_fitted(S):
    e, _ = _estimator(S, 2)
    exc, _ = S.call(e.get_feature_importances)
    S.ensure("no importances before a fit", isinstance(exc, ValueError))


@contract("P23", ["base.CyclicBoostingBase.required_columns", "price.CBExponential.required_columns", "nbinom.CBNBinomC.required_columns"], trials=200, max_paths=4000)
def columns(S):
    """exactly the columns used, for 1..4 groups, with and without weights and prior"""
    mode = S.choice("mode", list(util.ALLMODES))
    k = S.choice("groups", [1, 2, 4])
    pool = [("a",), ("a", "b"), ("c", "b", "a"), (3,), ("b",)]
    start = S.choice("start", [0, 1, 2])
    groups = [pool[(start + j) % 5] for j in range(k)]
    w, p = S.choice("weight", [None, "w", "b"]), S.choice("prior", [None, "p", 0])
    kw = {} if mode == "gbs" else dict(prior_prediction_column=p)
    if mode == "exponential":
        kw["external_groups"] = groups[:1]
        if S.choice("exponent", [False, True]):
            kw["prior_exponent_colname"] = "e"
    if mode == "gbs":
        p = None
    e = util.make(S, mode, groups, None, weight_column=w, **kw)
    want = {c for g in groups for c in g} | {c for c in (w, p) if c is not None}
    if mode == "exponential":
        want |= {"price"} | ({"e"} if kw.get("prior_exponent_colname") else set())
    if mode == "nbinomc":
        want |= {"mu"}
    got = e.required_columns()
    S.ensure("exactly the columns used", set(got) == want and len(list(got)) == len(want))


@bounded("P23", ["base.CyclicBoostingBase.get_feature_importances", "base.CyclicBoostingBase._fit_main"], trials=120)
def after_fits(S):
    """bounded: after each of up to three fits of one estimator the shares are those of the last fit"""
    mode = S.choice("mode", [m for m in util.ALLMODES if m not in ("mquantile", "aquantile")])
    e = None
    for round_ in range(1 + int(S.rng.integers(0, 3))):
        c = util.Case(S, mode, weights=False, prior=False)
        if e is None:
            groups, props = c.groups, c.props
            e = util.make(S, mode, groups, props, maximal_iterations=int(S.rng.integers(1, 5)))
        try:
            util.quiet(e.fit, c.X.copy(), c.y.copy())
        except Exception as x:
            S.ensure("only divergence stops a fit", util.diverged(S, x))
            return
    imp = e.get_feature_importances()
    con = e.get_feature_contributions(c.X)
    S.ensure("one importance per feature", len(imp) == len(e.features) == len(con))
    want = []
    for f in e.features:
        v = e._pred_feature(c.X, f, is_fit=False)
        want.append(float(np.mean(np.abs(v - e.neutral_factor_link))))
    t = sum(want)
    S.ensure("never negative", all(v >= 0 for v in imp.values()))
    if t > 1e-4:
        S.ensure("sum to one", abs(sum(imp.values()) - 1) < 1e-9)
        S.ensure("proportional to the deviations on the training data of the last fit", bool(np.allclose(list(imp.values()), np.array(want) / t, rtol=1e-6, atol=1e-9)))
    used = {col for g in groups for col in ((g,) if isinstance(g, str) else g)}
    extra = {"exponential": {"price"}, "nbinomc": {"mu"}}.get(mode, set())
    S.ensure("required columns", e.required_columns() == used | extra)
