"""The running training prediction always equals offset plus accumulated factors."""
import numpy as np

from ..spec import bounded, contract
from . import util

B = "base.CyclicBoostingBase."


def _at(S, a, i):
    return S.at(a, i)


def _estimator(S):
    mode = S.choice("mode", ["poisson", "location", "classifier"])
    e = util.make(S, mode, ["a"], None, aggregate=S.choice("aggregate", [True, False]))
    e.weights = None
    return e, mode


def _link(S, p):
    return S.values(p.predict_link())


@contract("P02", ["base.UpdateMixin.update_predictions", "base.UpdateMixin.remove_predictions", "base.UpdateMixin.include_factor_contrib", "base.UpdateMixin.remove_factor_contrib", "base.CBLinkPredictionsFactors"], trials=200)
def running_sum(S):
    """adding and removing a contribution changes the running prediction by exactly it"""
    n = S.dim("n", 1)
    link, c = S.array("link", n), S.array("contribution", n)
    p = util.pred(S, S.copy(link))
    S.ensure_forall("starts at the offset", n, lambda i: S.eq(S.at(_link(S, p), i), S.at(link, i), 0, 0))
    f = util.feature(S)
    p.update_predictions(S.copy(c), f)
    S.ensure_forall("added once", n, lambda i: S.eq(S.at(_link(S, p), i), S.at(link, i) + S.at(c, i)))
    p.remove_predictions(S.copy(c), f)
    S.ensure_forall("removed once", n, lambda i: S.eq(S.at(_link(S, p), i), S.at(link, i), 1e-9, 1e-9))


def _prepared(S, e, n, b, fitted):
    lex = S.array("lex", n, dtype="i", lo=0, hi=b)
    f = util.feature(S, bins=b, lex=lex)
    cur = S.array("current", b + 1)
    f.factors_link = S.copy(cur)
    f.is_fitted = fitted
    agg = None
    if fitted:
        if e.aggregate:
            agg = S.array("agg", b + 1)
        else:
            agg = cur
        f.fitted_aggregated = S.copy(agg)
    elif not e.aggregate:
        # before the first update of a feature its current factors are neutral
        S.assume_forall(b + 1, lambda j: S.eq(S.at(cur, j), 0.0, 0, 0))
    return f, lex, agg


@contract("P02", [B + "feature_iteration", B + "visit_factors", B + "_pred_feature", "base._predict_factors"], trials=300)
def one_update(S):
    """one feature update, from any state that satisfies the invariant, whatever is estimated, smoothed and calibrated"""
    e, mode = _estimator(S)
    e.is_diverging, e.diverging = False, 0
    n, b = S.dim("n", 1), S.dim("b", 1)
    fitted = S.choice("fitted", [True, False])
    if not S.sym and not fitted and not e.aggregate and "current" not in S.given:
        S._rec("current", np.zeros(b + 1))
    f, lex, agg = _prepared(S, e, n, b, fitted)
    link = S.array("link", n)
    p = util.pred(S, S.copy(link))
    est, unc = S.array("estimate", b + 1), S.array("uncertainty", b + 1, 0, lo_open=True)
    sm = S.array("smoothed", b + 1)
    S.stub(e, "calc_parameters", lambda *a, **k: (S.copy(est), S.copy(unc)))
    S.stub(e, "learning_rate", lambda f_: 1.0)
    bm = S.mod("base")
    if S.sym:
        grid = S.array("grid", (b + 1, 3))
        S.stub(f, "update_factors", lambda *a, **k: grid)
        S.stub(bm, "_predict_factors", lambda **k: S.copy(sm))
    else:
        f.update_factors = lambda *a, **k: np.zeros((b + 1, 3))
        S.stub(bm, "_predict_factors", lambda *a, **k: S.copy(sm))
    cal = S.array("calibrated", b + 1)
    S.stub(e, "calibrate_to_weighted_mean", lambda f_: S.copy(cal))
    q = e.feature_iteration(None, None, f, p, None)
    r = _link(S, q)

    def delta(i):
        j = S.at(lex, i)
        return S.at(f.fitted_aggregated, j) - (S.at(agg, j) if agg is not None else 0.0)

    S.ensure_forall("the running prediction changes by the change of the accumulated factor", n, lambda i: S.eq(S.at(r, i), S.at(link, i) + delta(i), 1e-9, 1e-9))
    S.ensure("fitted", f.is_fitted is True)
    if not e.aggregate:
        S.ensure_forall("current and accumulated factors agree without accumulation", b + 1, lambda j: S.eq(S.at(f.fitted_aggregated, j), S.at(f.factors_link, j), 0, 0))
    else:
        S.ensure_forall(
            "the last update is known for a roll-back",
            b + 1,
            lambda j: S.eq(S.at(f.fitted_aggregated, j), (S.at(agg, j) if agg is not None else 0.0) + S.at(f.factors_link, j), 1e-9, 1e-9),
        )
    # later in-place changes of the last update must not leak into the accumulated factors
    before = S.copy(f.fitted_aggregated)
    f.factors_link[0] = 17.0
    S.ensure("accumulated factors do not alias the last update", S.eq(S.at(f.fitted_aggregated, 0), S.at(before, 0), 0, 0))


@contract("P02", [B + "visit_factors", B + "is_diverged", B + "_pred_feature"], trials=300)
def diverging_update(S):
    """while diverging: clipped or ignored, the bookkeeping stays exact and the trial leaves no trace"""
    e = util.make(S, "poisson", ["a"], None)
    n, b = S.dim("n", 1), S.dim("b", 1)
    e.is_diverging, e.diverging = True, S.choice("diverging", [1, 2, 4])
    fitted = S.choice("fitted", [True, False])
    f, lex, agg = _prepared(S, e, n, b, fitted)
    new = S.array("new", b + 1)
    f.factors_link = S.copy(new)
    if not fitted:
        f.fitted_aggregated = None
    e.initial_loss_ = S.real("initial", 0)
    loss = S.real("loss", 0)
    e.weights = S.array("w", n, 0)
    S.stub(e, "loss", lambda *a: loss)
    S.stub(e, "unlink_func", lambda v: v)
    link, y = S.array("link", n), S.array("y", n)
    p = util.pred(S, S.copy(link))
    un = S.array("unfitted", b + 1)
    if not fitted and e.diverging > 1:
        S.assume(loss <= 2 * e.initial_loss_)
    util.quiet(e.visit_factors, f, un, None, y, p)
    r = _link(S, p)
    S.ensure_forall("the trial update is taken back", n, lambda i: S.eq(S.at(r, i), S.at(link, i), 1e-9, 1e-9))
    S.ensure_forall(
        "accumulated factor grows by the update",
        b + 1,
        lambda j: S.eq(S.at(f.fitted_aggregated, j), (S.at(agg, j) if agg is not None else 0.0) + S.at(f.factors_link, j), 1e-9, 1e-9),
    )
    if e.diverging > 1:
        S.ensure_forall("an ignored feature has neutral accumulated factors", b + 1, lambda j: S.implies(loss > 2 * e.initial_loss_, lambda: S.eq(S.at(f.fitted_aggregated, j), 0.0, 1e-9, 1e-9)))


@contract("P02", [B + "remove_preds", B + "_pred_feature", "base.UpdateMixin.remove_predictions"], trials=200, assumes=["a roll-back is proved for 0 to 3 feature groups (the loop over feature groups is unrolled)"])
def roll_back(S):
    """a roll-back takes each feature's last update back, in the running prediction and in the accumulated factors"""
    e, mode = _estimator(S)
    k = S.choice("features", [0, 1, 2, 3])
    n = S.dim("n", 1)
    link = S.array("link", n)
    w, x = S.array("w", n, 0), None
    e.weights = w
    ft = S.mod("features")
    fs, info = [], []
    for q in range(k):
        b = S.dim("b%d" % q, 1)
        lex = S.array("lex%d" % q, n, dtype="i", lo=0, hi=b)
        f = util.feature(S, ("abc"[q],), bins=b, lex=None)
        last, fitted = S.array("last%d" % q, b + 1), S.choice("fitted%d" % q, [True, False])
        agg = (last if not e.aggregate else S.array("agg%d" % q, b + 1)) if fitted else None
        f.factors_link, f.is_fitted = S.copy(last), fitted
        f.fitted_aggregated = S.copy(agg) if fitted else None
        bound = []

        def bind(X, weights, f=f, lex=lex, bound=bound):
            f.lex_binned_data = lex
            bound.append(weights)

        S.stub(f, "bind_data", bind, needed=fitted)
        fs.append(f)
        info.append((f, b, lex, last, agg, fitted, bound))
    e.features = ft.FeatureList(fs)
    p = util.pred(S, S.copy(link))
    e.remove_preds(p, None)
    r = _link(S, p)

    def taken(i):
        t = 0.0
        for f, b, lex, last, agg, fitted, bound in info:
            if fitted:
                t = t + S.at(agg, S.at(lex, i)) - S.at(f.fitted_aggregated, S.at(lex, i))
        return t

    S.ensure_forall("the running prediction loses what the accumulated factors lose", n, lambda i: S.eq(S.at(r, i), S.at(link, i) - taken(i), 1e-9, 1e-9))
    for f, b, lex, last, agg, fitted, bound in info:
        if not fitted:
            S.ensure("a feature not fitted yet is left alone", f.fitted_aggregated is None and f.is_fitted is False)
            continue
        S.ensure_forall("exactly the last update is taken back", b + 1, lambda j: S.eq(S.at(f.fitted_aggregated, j), S.at(agg, j) - S.at(last, j), 1e-9, 1e-9))
        if not e.aggregate:
            S.ensure_forall("without accumulation the current factors become neutral", b + 1, lambda j: S.eq(S.at(f.factors_link, j), 0.0, 0, 0))


@contract("P02", ["features.Feature.prepare_feature", "features.Feature.unbind_factor_data", "base._predict_factors", "utils.slice_finite_semi_positive", "smoothing.onedim.PredictingBinValueMixin.predict"], trials=300)
def frozen_1d(S):
    """after training, the contribution of a training row is the accumulated factor of its bin"""
    b = S.dim("b", 1)
    agg = S.array("agg", b + 1)
    f = util.feature(S, bins=b)
    cur = S.array("cur", b + 1)
    f.factors_link, f.fitted_aggregated, f.is_fitted, f.learn_rate = cur, S.copy(agg), True, S.real("rate", 0, 1)
    f.smootherb.fit(None, S.array("first", b))
    n = S.dim("n", 1)
    X = S.array("X", (n, 1), lo=-5, hi=None, kind="any", ints=True)
    if not S.sym and "X" not in S.given:
        X = S._rec("X", S.rng.choice([-1.0, np.nan, np.inf] + [float(v) for v in range(b)], (n, 1)))
    S.assume_forall(n, lambda i: S.implies(S.and_(S.isfinite(S.at(X, i, 0)), S.at(X, i, 0) >= 0), lambda: S.at(X, i, 0) < b))
    f.prepare_feature()
    if S.choice("cleared", [True, False]):
        f.unbind_factor_data()
    r = S.mod("base")._predict_factors(f, X, 0.0)
    ok = lambda i: S.and_(S.isfinite(S.at(X, i, 0)), S.at(X, i, 0) >= 0)
    S.ensure("one contribution per row", S.eq(S.len(r), n, 0, 0))
    S.ensure_forall("value accumulated for the bin", n, lambda i: S.implies(ok(i), lambda: S.eq(S.at(r, i), S.at(agg, S.integer(S.at(X, i, 0))), 0, 0)))
    S.ensure_forall("value accumulated for missing values", n, lambda i: S.implies(S.not_(ok(i)), lambda: S.eq(S.at(r, i), S.at(agg, b), 0, 0)))


class _Watch:
    """checks the invariant from outside after every update and every cycle"""

    def __init__(self, S, est, X):
        self.S, self.est, self.X = S, est, X
        self.seen = 0

    def _sum(self, features):
        est = self.est
        link = np.array(est._get_prior_predictions(self.X), dtype=float)
        exp = np.zeros(len(link))
        lexico = self.S.mod("utils").multidim_binnos_to_lexicographic_binnos
        cols = self.S.mod("utils").get_X_column
        for f in features:
            if not f.is_fitted:
                continue
            lex, _ = lexico(cols(self.X, f.feature_group, array_for_1_dim=False), f.n_multi_bins_finite)
            v = np.asarray(f.fitted_aggregated)[lex]
            if f.feature_type is None:
                link = link + v
            else:
                exp = exp + v
        return link, exp

    def cycle(self, prediction):
        link, exp = self._sum(self.est.features)
        self.seen += 1
        if type(self.est).__name__ == "CBExponential":
            return
        p = self.est.unlink_func(link)
        self.S.ensure("in-sample prediction is offset plus accumulated factors", bool(np.allclose(p, prediction, rtol=1e-7, atol=1e-9)))


@bounded("P02", [B + "_fit_main", B + "fit", B + "predict", B + "remove_preds"], trials=200)
def trainings(S):
    """bounded: whole trainings of every mode; the in-sample prediction is what predict gives, also after roll-backs"""
    mode = S.choice("mode", list(util.ALLMODES))
    c = util.Case(S, mode, n=int(S.rng.integers(6, 60)))
    over = dict(maximal_iterations=int(S.rng.integers(1, 8)), output_column="out")
    if mode not in ("gbs", "exponential", "nbinomc"):
        over["aggregate"] = bool(S.rng.random() < 0.8)
    if S.rng.random() < 0.3 and mode in ("poisson", "location", "classifier"):
        over.update(hierarchical_feature_groups=[c.groups[0]], training_iterations_hierarchical_features=int(S.rng.integers(0, 3)))
    e = util.make(S, mode, c.groups, c.props, **c.kw(S, **over))
    # losses that make the training diverge now and then exercise the roll-back
    bad = set(int(v) for v in S.rng.integers(1, 8, int(S.rng.integers(0, 3)))) if S.rng.random() < 0.5 else set()
    upd, ncall = e._update_loss, [0]
    w = _Watch(S, e, c.X)

    def update(prediction, y):
        w.cycle(prediction)
        ncall[0] += 1
        if ncall[0] in bad:
            keep = e.initial_loss_
            e.initial_loss_ = -1.0
            try:
                return upd(prediction, y)
            finally:
                e.initial_loss_ = keep
        return upd(prediction, y)

    e._update_loss = update
    try:
        insample = np.asarray(util.quiet(e.fit_transform, c.X.copy(), c.y.copy())["out"])
    except Exception as x:
        S.ensure("only divergence stops a fit", util.diverged(S, x))
        return
    S.ensure("the cycles were seen", w.seen > 0)
    out = util.quiet(e.predict_proba, c.X.copy())[:, 1] if mode == "classifier" else util.quiet(e.predict, c.X.copy())
    if mode == "locpoisson":
        insample = np.maximum(insample, 0)  # predict of this mode never returns a negative value
    S.ensure("predicting the training rows gives the in-sample prediction", bool(np.allclose(out, insample, rtol=1e-7, atol=1e-9)))
