"""Every prediction is the offset plus one learned contribution per feature group."""
import numpy as np
import pandas as pd

from ..spec import bounded, contract
from . import p04, util

B = "base.CyclicBoostingBase."
GROUPS = ["the loop over feature groups is unrolled for 0 to 3 groups in the proofs; adding one more group is the contract running_sum of P02"]


def _model(S, mode, k, **kw):
    """a fitted estimator with k one-dimensional groups and any learned values"""
    e = util.make(S, mode, ["abc"[j] for j in range(k)], None, **kw)
    one = S.mod("smoothing.onedim")
    ft = S.mod("features")
    fs, info = [], []
    for j in range(k):
        b = S.dim("b%d" % j, 1)
        v = S.array("v%d" % j, b, lo=-3, hi=3)
        miss = S.real("missing%d" % j, -3, 3)
        f = util.feature(S, ("abc"[j],))
        f.smoother = one.BinValuesSmoother()
        f.smoother.smoothed_y_ = v
        f.factors_link, f.learn_rate, f.is_fitted = [miss], 1.0, True
        fs.append(f)
        info.append((b, v, miss))
    e.features = ft.FeatureList(fs)
    e.global_scale_link_ = S.real("scale", -2, 2)
    return e, fs, info


def _columns(S, n, k, info):
    cols = {}
    for j in range(k):
        x = S.array("x%d" % j, n, kind="any", ints=True)
        if not S.sym and "x%d" % j not in S.given:
            x = S._rec("x%d" % j, S.rng.choice([-1.0, np.nan, np.inf, 1e19] + [float(q) for q in range(info[j][0] + 2)] * 2, n))
        cols["abc"[j]] = x
    return cols


def _value(S, x, b, v, miss):
    """the documented contribution of one value"""
    valid = S.and_(S.isfinite(x), S.ge(x, 0, 0, 0))
    if not S.sym:
        return (float(v[int(x)]) if x < b else 0.0) if valid else miss
    inside = S.and_(valid, S.lt(x, b))
    return S.ite(inside, S.at(v, S.ite(inside, S.integer(x), 0)), S.ite(valid, 0.0, miss))


def _summands(S, e, fs, n, keep):
    """the contribution of a group is a number per row (contracts contribution, look_up_1d and look_up_nd of P04);
    it must be asked for with the values of the group's own columns"""
    out = {}

    def predict_factors(feature, X_for_smoother, neutral_factor):
        S.ensure("contributions are asked for with the neutral value", S.eq(neutral_factor, 0.0, 0, 0))
        for q, col in enumerate(feature.feature_group):
            S.ensure_forall(
                "contribution of the group's own columns",
                n,
                lambda i: S.or_(S.eq(S.at(X_for_smoother, i, q), S.at(keep[col], i), 0, 0), S.and_(S.isnan(S.at(X_for_smoother, i, q)), S.isnan(S.at(keep[col], i)))),
            )
        return S.copy(out[id(feature)])

    for j, f in enumerate(fs):
        out[id(f)] = S.array("c%d" % j, n, lo=-5, hi=5)
    S.stub(S.mod("base"), "_predict_factors", predict_factors)
    return out


SETS = [[("a",)], [("a",), ("b", "a")], [("c", "a", "b"), ("b",), ("a",)]]


@contract("P01", [B + "predict", B + "predict_extended", B + "_pred_feature", B + "_get_prior_predictions", "base.UpdateMixin.update_predictions", "base.UpdateMixin.include_factor_contrib", "base.CBLinkPredictionsFactors", "utils.get_X_column"], trials=300, assumes=GROUPS)
def decomposition(S):
    """prediction of models with any contributions of their groups"""
    mode = S.choice("mode", ["location", "poisson", "classifier"])
    groups = S.choice("groups", SETS)
    prior = S.choice("prior", [False, True])
    e = util.make(S, mode, groups, None, **(dict(prior_prediction_column="p") if prior else {}))
    fs = [util.feature(S, g) for g in groups]
    e.features = S.mod("features").FeatureList(fs)
    e.global_scale_link_ = S.real("scale", -2, 2)
    n = S.dim("n", 1)
    cols = {c: S.array("x_" + c, n, kind="nan") for c in "abc"}
    keep = {c: S.copy(v) for c, v in cols.items()}
    out = _summands(S, e, fs, n, keep)
    off = S.array("offset", n, lo=-3, hi=3) if prior else None
    if prior:
        S.stub(e, "_get_prior_predictions", lambda X_: S.copy(off))
    link = lambda i: S.at(off, i) if prior else e.global_scale_link_
    X = S.frame(cols)
    r = e.predict_proba(X)[:, 1] if mode == "classifier" else e.predict(X)
    S.ensure("one prediction per row", S.eq(S.len(r), n, 0, 0))

    def total(i):
        t = link(i)
        for f in fs:
            t = t + S.at(out[id(f)], i)
        return t

    if mode == "classifier":
        S.ensure_forall("inverse link of the offset plus the contributions", n, lambda i: S.eq(S.at(r, i) * (1 + S.exp(-total(i))), 1.0, 1e-9, 1e-9))
    else:
        un = (lambda t: t) if mode == "location" else S.exp
        S.ensure_forall("inverse link of the offset plus the contributions", n, lambda i: S.eq(S.at(r, i), un(total(i)), 1e-9, 1e-9))


@contract("P01", [B + "predict", B + "predict_extended", B + "_get_prior_predictions", B + "_pred_feature"], trials=200)
def prior_offset(S):
    """with prior predictions the offset of a row is its own prior prediction, shifted by the fitted constant"""
    e, fs, info = _model(S, "location", 1, prior_prediction_column="p")
    e.prior_pred_link_offset_ = S.real("shift", -2, 2)
    n = S.dim("n", 1)
    cols = _columns(S, n, 1, info)
    x = S.copy(cols["a"])
    p = S.array("p", n, kind="any")
    cols["p"] = p
    r = e.predict(S.frame(cols))

    def off(i):
        if not S.sym:
            return p[i] + e.prior_pred_link_offset_ if np.isfinite(p[i]) else e.global_scale_link_
        return S.ite(S.isfinite(S.at(p, i)), S.at(p, i) + e.prior_pred_link_offset_, e.global_scale_link_)

    S.ensure_forall("offset of the row plus its learned value", n, lambda i: S.eq(S.at(r, i), off(i) + _value(S, S.at(x, i), *info[0]), 1e-9, 1e-9))


@contract("P01", [B + "get_feature_contributions", B + "_pred_feature"], trials=200, assumes=GROUPS)
def contributions(S):
    """reported contributions are the inverse link of the summands"""
    mode = S.choice("mode", ["location", "poisson"])
    groups = S.choice("groups", SETS)
    e = util.make(S, mode, groups, None)
    fs = [util.feature(S, g) for g in groups]
    e.features = S.mod("features").FeatureList(fs)
    n = S.dim("n", 1)
    cols = {c: S.array("x_" + c, n, kind="nan") for c in "abc"}
    keep = {c: S.copy(v) for c, v in cols.items()}
    out = _summands(S, e, fs, n, keep)
    con = e.get_feature_contributions(S.frame(cols))
    S.ensure("one entry per group, named after its columns", sorted(con) == sorted(" ".join(g) for g in groups))
    un = (lambda t: t) if mode == "location" else S.exp
    for f in fs:
        c = " ".join(f.feature_group)
        if c in con:
            S.ensure_forall("inverse link of the summand", n, lambda i: S.eq(S.at(con[c], i), un(S.at(out[id(f)], i)), 1e-9, 1e-9))


@contract("P01", [B + "predict_extended", "base.get_influence_category", "base.UpdateMixin.update_predictions", "base.UpdateMixin.include_factor_contrib"], trials=150, assumes=GROUPS)
def categories(S):
    """with influence categories, each category holds the sum of the contributions of its groups"""
    groups = S.choice("groups", SETS)
    cat = [S.choice("category%d" % j, ["k", "l"]) for j in range(len(groups))]
    e = util.make(S, "location", groups, None)
    fs = [util.feature(S, g) for g in groups]
    e.features = S.mod("features").FeatureList(fs)
    e.global_scale_link_ = S.real("scale", -2, 2)
    n = S.dim("n", 1)
    cols = {c: S.array("x_" + c, n, kind="nan") for c in "abc"}
    out = _summands(S, e, fs, n, {c: S.copy(v) for c, v in cols.items()})
    plain = S.choice("plain names", [False, True])
    infl = {(g[0] if plain and len(g) == 1 else g): k for g, k in zip(groups, cat)}
    pred = e.predict_extended(S.frame(cols), infl)

    def total(i, k=None):
        t = e.global_scale_link_ if k is None else 0.0
        for f, c in zip(fs, cat):
            if k is None or c == k:
                t = t + S.at(out[id(f)], i)
        return t

    link = pred.predict_link()
    S.ensure_forall("offset plus the contributions", n, lambda i: S.eq(S.at(link, i), total(i), 1e-9, 1e-9))
    for k in sorted(set(cat)):
        S.ensure("a column per category", k in pred.df.columns)
        if k in pred.df.columns:
            v = pred.df[k].values
            S.ensure_forall("sum of the contributions of the category", n, lambda i: S.eq(S.at(v, i), total(i, k), 1e-9, 1e-9))
    if len(groups) > 1:
        exc, _ = S.call(e.predict_extended, S.frame(cols), {groups[0]: "k"})
        S.ensure("a group without category is an error", isinstance(exc, KeyError))


contract("P01", ["smoothing.multidim.PredictingBinValueMixin.predict", "utils.bin_steps"], trials=100, assumes=p04.DIMS)(p04.look_up_nd)
contract("P01", ["base._predict_factors"], trials=100, assumes=p04.DIMS)(p04.contribution)


@contract("P01", ["price.CBExponential.predict_extended", "price.CBExponential.predict", "price.CBLinkPredictions", "price.CBExponential._init_external_column"], trials=200)
def price_model(S):
    """price model: factors plus the price times the prior exponent times the exponential of the exponent contributions"""
    e = util.make(S, "exponential", ["a", "b"], None, external_groups=["a", ("a", "b")], **(dict(prior_exponent_colname="pe") if S.choice("prior_exponent", [False, True]) else {}))
    ft = S.mod("features")
    k = S.choice("groups", [1, 2])
    fs = [util.feature(S, ("ab"[j],)) for j in range(k)] + [util.feature(S, (("a",), ("a", "b"))[j], ftype=ft.FeatureTypes.external) for j in range(k)]
    if S.choice("reversed", [False, True]):
        fs = fs[::-1]
    e.features = ft.FeatureList(fs)
    e.global_scale_link_ = S.real("scale", -2, 2)
    n = S.dim("n", 1)
    cols = {c: S.array("x_" + c, n, kind="nan") for c in "ab"}
    keep = {c: S.copy(v) for c, v in cols.items()}
    out = _summands(S, e, fs, n, keep)
    price, pe = S.array("price", n, lo=0, hi=2, kind="nan"), S.array("pe", n, lo=-3, hi=-0.1)
    cols["price"], cols["pe"] = price, pe
    r = e.predict_extended(S.frame(cols), None).predict_link()

    def want(i):
        t, x = e.global_scale_link_, 0.0
        for f in fs:
            if f.feature_type is None:
                t = t + S.at(out[id(f)], i)
            else:
                x = x + S.at(out[id(f)], i)
        q = S.at(pe, i) if e.prior_exponent_colname else -1.0
        if not S.sym:
            d = price[i] - 1 if np.isfinite(price[i]) else 0.0
        else:
            d = S.ite(S.isfinite(S.at(price, i)), S.at(price, i) - 1, 0.0)
        return t + q * S.exp(x) * d

    S.ensure_forall("factors plus exponent times price", n, lambda i: S.eq(S.at(r, i), want(i), 1e-9, 1e-9))


def _lookup(S, e, c, Z):
    """link-space prediction recomputed from the learned values of the fitted model"""
    link = np.array(e._get_prior_predictions(Z), dtype=float)
    expo = np.zeros(len(Z))
    parts = {}
    for f in e.features:
        A = Z[list(f.feature_group)].values.astype(float)
        v = np.zeros(len(Z))
        for i, row in enumerate(A):
            ok = np.isfinite(row).all() and (row >= 0).all()
            if not ok:
                v[i] = f.factors_link[-1]
            elif f.smoother is None:
                v[i] = 0.0
            else:
                nb = [len(f.smoother.smoothed_y_)] if len(row) == 1 else list(f.smoother.n_bins_)[: len(row)]
                if all(x < q for x, q in zip(row, nb)):
                    pos = 0
                    for x, q in zip(row, nb):
                        pos = pos * q + int(x)
                    v[i] = f.smoother.smoothed_y_[pos]
        parts[f] = v
        if f.feature_type is None:
            link = link + v
        else:
            expo = expo + v
    return link, expo, parts


@bounded("P01", [B + "predict", B + "get_feature_contributions", "price.CBExponential.predict", "classification.CBClassifier.predict_proba"], trials=160)
def fitted_models(S):
    """bounded: fitted models of every mode with groups of one to three features; any batch, in any order"""
    mode = S.choice("mode", list(util.ALLMODES))
    c = util.Case(S, mode, n=int(S.rng.integers(6, 50)))
    if S.rng.random() < 0.3 and mode != "exponential":
        c.groups = [("a", "b", "c"), "a", ("c", "b")]
    try:
        e = c.fit(S)
    except Exception as x:
        S.ensure("only divergence stops a fit", util.diverged(S, x))
        return
    n = int(S.rng.integers(1, 12))
    Z = c.X.iloc[S.rng.integers(0, c.n, n)].reset_index(drop=True).astype(float)
    for col in c.features:
        hit = S.rng.random(n) < 0.3
        Z.loc[hit, col] = S.rng.choice([np.nan, -1.0, np.inf, 0.0, 1.0, 2.0, 9.0], hit.sum())
    if S.rng.random() < 0.5:
        Z.index = S.rng.permutation(n) + 5

    def run(D):
        return np.asarray(util.quiet(e.predict_proba, D)[:, 1] if mode == "classifier" else util.quiet(e.predict, D))

    p = run(Z)
    link, expo, parts = _lookup(S, e, c, Z)
    if mode == "exponential":
        d = np.nan_to_num(Z["price"].values - 1)
        link = link - np.exp(expo) * d
    want = np.asarray(e.unlink_func(link))
    if mode == "locpoisson":
        want = np.maximum(want, 0)
    S.ensure("inverse link of the offset plus the learned values", bool(np.allclose(p, want, rtol=1e-9, atol=1e-12)))
    con = util.quiet(e.get_feature_contributions, Z)
    S.ensure("one entry per group", len(con) == len(parts))
    for f, v in parts.items():
        name = " ".join(f.feature_group) + ("" if f.feature_type is None else "_%s" % f.feature_type)
        S.ensure("reported contribution", name in con and bool(np.allclose(con[name], e.unlink_func(v), rtol=1e-9, atol=1e-12)))
    o = S.rng.permutation(n)
    S.ensure("independent of the order of the rows", bool(np.allclose(run(Z.iloc[o]), p[o], rtol=1e-12, atol=1e-12)))
    i = int(S.rng.integers(0, n))
    S.ensure("independent of the other rows", bool(np.allclose(run(Z.iloc[[i]]), p[i : i + 1], rtol=1e-12, atol=1e-12)))
    S.ensure("asking again gives the same", bool(np.array_equal(run(Z), p)))
