"""Observers and plot preparation never influence the trained model."""
import copy

import numpy as np

from ..spec import bounded, contract
from . import util

B = "base.CyclicBoostingBase."
O = "observers."


def _state(e):
    out = [("global scale", float(e.global_scale_link_)), ("loss", float(e.insample_loss_)), ("iterations", e.iteration_), ("stop criteria", e.stop_criteria_), ("importances", sorted(e.get_feature_importances().items()))]
    for f in e.features:
        out.append(("factors of %s" % (f.feature_id,), e._trained.get(str(f.feature_id))))
        out.append(("factor sums of %s" % (f.feature_id,), f.factor_sum))
        out.append(("value of missing bins of %s" % (f.feature_id,), f.factors_link[-1]))
    return out


class _Trained(object):
    """the factors of every feature at the end of the training, where the code discards them"""

    def __init__(self, S):
        self.cls, self.got = S.mod("features").Feature, {}

    def __enter__(self):
        self.old = old = getattr(self.cls, "clear_feature_reference", None)

        def clear(f, *a, **k):
            self.got[str(f.feature_id)] = np.array(f.factors_link, dtype=float)
            return old(f, *a, **k)

        if old is not None:
            self.cls.clear_feature_reference = clear
        return self.got

    def __exit__(self, *a):
        if self.old is not None:
            self.cls.clear_feature_reference = self.old


def _freeze(o):
    d = {k: copy.deepcopy(v) for k, v in vars(o).items() if k not in ("link_function", "features")}
    d["_features"] = None if o.features is None else [{k: copy.deepcopy(v) for k, v in vars(f).items()} for f in o.features]
    return d


def _same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(_same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and (np.array_equal(a, b, equal_nan=True) if a.dtype.kind in "fc" else np.array_equal(a, b))
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    if hasattr(a, "equals"):
        return bool(a.equals(b))
    if type(a).__module__.startswith("cyclic_boosting") and hasattr(a, "__dict__"):
        return _same(vars(a), vars(b))
    try:
        return bool(a == b) or True
    except Exception:
        return True


def _observers(S, rng):
    o = S.mod("observers")
    out = [o.PlottingObserver(int(k)) for k in rng.choice([-1, 1, 2, 3, 4], size=rng.integers(1, 4))]
    if rng.random() < 0.4:
        out.append(o.BaseObserver())
    return out


@bounded("P29", [B + "_fit_main", B + "_call_observe_iterations", B + "_call_observe_feature_iterations", B + "prepare_plots", O + "PlottingObserver", "features.Feature.clear_feature_reference", "generic_loss.CBQuantileRegressor.prepare_plots"], trials=90, con_budget=40)
def trainings(S):
    """bounded: random trainings with and without observers; records never change afterwards"""
    mode = S.choice("mode", list(util.ALLMODES))
    c = util.Case(S, mode)
    S._rec("rows", c.n)
    over = dict(maximal_iterations=int(S.rng.integers(1, 5)))
    if mode in ("mquantile", "aquantile"):
        over["maximal_iterations"] = min(2, over["maximal_iterations"])
    if S.rng.random() < 0.3 and mode not in ("exponential", "nbinomc"):
        over["hierarchical_feature_groups"] = [c.groups[0]]
    kw = c.kw(S, **over)
    obs = _observers(S, S.rng)
    recs = []
    for o in obs:
        if hasattr(o, "_fitted"):
            inner = o.observe_iterations

            def spy(*a, _o=o, _f=inner, **k):
                _f(*a, **k)
                recs.append((_o, a[0], _freeze(_o)))

            o.observe_iterations = spy
    res = []
    for ob in (None, obs):
        e = util.make(S, mode, c.groups, c.props, observers=ob, **kw)
        with _Trained(S) as got:
            exc, _ = S.call(util.quiet, e.fit, c.X.copy(), c.y.copy())
        e._trained = got
        if exc is not None and not util.diverged(S, exc):
            raise exc
        if exc is not None:
            res.append(("diverged", str(exc)))
        else:
            res.append((_state(e), [np.asarray(util.quiet(e.predict, c.X.copy()))]))
    a, b = res
    S.ensure("same outcome of the training", (a[0] == "diverged") == (b[0] == "diverged"))
    if isinstance(a[0], str) or isinstance(b[0], str):
        return
    for (nm, x), (_, y) in zip(a[0], b[0]):
        S.ensure("same " + nm.split(" of ")[0], _same(x, y))
    S.ensure("same predictions", np.array_equal(a[1][0], b[1][0], equal_nan=True))
    util.quiet(e.predict, c.X.copy())
    for o, it, rec in recs:
        if o._fitted and o.features is not None and rec["_fitted"]:
            now = _freeze(o)
            keys = [k for k in rec if k not in ("loss", "factor_change", "observe_iterations")]
            S.ensure("records do not change when training continues", all(_same(rec[k], now[k]) for k in keys))
        S.ensure("losses recorded stay", o.loss[: len(rec["loss"])] == rec["loss"])
    for o in obs:
        if hasattr(o, "_fitted") and o.iteration == -1:
            S.ensure("observer of the last iteration is filled", o._fitted)
            g = {f.feature_id: f for f in o.features}
            for f in e.features:
                if str(f.feature_id) in got:
                    S.ensure("recorded factors are those of the model", np.array_equal(np.asarray(g[f.feature_id].factors_link), got[str(f.feature_id)], equal_nan=True))


@contract("P29", [O + "PlottingObserver.observe_iterations", O + "PlottingObserver.check_fitted"])
def recording(S):
    """what is recorded is a copy: later changes of the features do not reach it, and nothing of the estimator changes"""
    o = S.mod("observers")
    nb = S.dim("nb", 1)
    fac, agg = S.array("factors", nb), S.array("aggregated", nb)
    f = util.feature(S, bins=nb)
    f.factors_link, f.fitted_aggregated = fac, agg
    hist = object()
    S.stub(o, "calc_in_sample_histograms", lambda y, pred, weights, quantile=None: hist, needed=False)
    at = S.choice("observed iteration", [1, 2, -1])
    now = S.choice("iteration", [0, 1, 2, 3, -1])
    p = o.PlottingObserver(at)
    loss, delta = S.real("loss"), S.real("delta")
    state = {"features": [f], "insample_loss": loss, "link_function": None}
    fac0, agg0 = S.copy(fac), S.copy(agg)
    p.observe_iterations(now, None, None, None, None, state, delta)
    S.ensure_forall("factors unchanged", nb, lambda j: S.and_(S.eq(S.at(f.factors_link, j), S.at(fac0, j), 0, 0), S.eq(S.at(f.fitted_aggregated, j), S.at(agg0, j), 0, 0)))
    S.ensure("filled exactly at the requested iteration", p._fitted == (at == now))
    if at == now:
        exc, _ = S.call(p.check_fitted)
        S.ensure("check of a filled observer", exc is None)
        f.factors_link += 1.0
        f.fitted_aggregated *= 2.0
        f.factors_link = S.copy(f.factors_link) * 3.0
        g = list(p.features)[0]
        S.ensure("a feature of its own", g is not f)
        S.ensure_forall("record is unaffected by later changes", nb, lambda j: S.and_(S.eq(S.at(g.factors_link, j), S.at(fac0, j), 0, 0), S.eq(S.at(g.fitted_aggregated, j), S.at(agg0, j), 0, 0)))
    else:
        exc, _ = S.call(p.check_fitted)
        S.ensure("check of an empty observer", exc is not None)
    rec = now == -1 and at == -1 or now != -1 and (now <= at or at == -1)
    S.ensure("losses up to the requested iteration", len(p.loss) == (1 if rec else 0) and (not rec or S.eq(p.loss[0], loss, 0, 0)))
    S.ensure("changes of the factors from the first iteration on", len(p.factor_change) == (1 if rec and now != 0 else 0))


@contract("P29", [B + "_call_observe_iterations", B + "_call_observe_feature_iterations", B + "get_state", "generic_loss.CBQuantileRegressor._call_observe_iterations"])
def calls(S):
    """every observer is called with the current state; the features handed over are not replaced"""
    mode = S.choice("mode", ["poisson", "mquantile"])
    k = S.choice("observers", [0, 1, 2])
    seen = []

    class Spy(S.mod("observers").BaseObserver):
        def observe_iterations(self, *a, **kw):
            seen.append(("it", a, kw))

        def observe_feature_iterations(self, *a, **kw):
            seen.append(("f", a, kw))

    n = S.dim("n", 1)
    y, p, w = S.array("y", n, 0), S.array("p", n, 0), S.array("w", n, 0)
    e = util.make(S, mode, ["a", "b"], {"a": S.mod("flags").IS_UNORDERED, "b": S.mod("flags").IS_UNORDERED}, observers=[Spy() for _ in range(k)])
    e.weights, e.global_scale_link_, e.insample_loss_, e.iteration_ = w, S.real("scale", -2, 2), S.real("loss"), 2
    feats = list(e.features)
    before = {id(f): dict(vars(f)) for f in feats}
    e._call_observe_iterations(2, None, y, p, 0.5)
    e._call_observe_feature_iterations(2, 1, None, y, p)
    S.ensure("one call per observer and event", [x[0] for x in seen] == ["it"] * k + ["f"] * k)
    for kind, a, kw in seen:
        S.ensure("iteration, target and prediction of the training", a[0] == 2 and (a[2] is y and a[3] is p if kind == "it" else a[1] == 1 and a[3] is y and a[4] is p))
    S.ensure("features unchanged", all(len(before[id(f)]) == len(vars(f)) and all(vars(f)[q] is v for q, v in before[id(f)].items()) for f in feats) and list(e.features) == feats)


@contract("P29", [B + "prepare_plots"])
def plots_frame(S):
    """preparing the plots changes neither factors nor the data of the training"""
    n, nb = S.dim("n", 1), S.dim("nb", 1)
    lex = S.array("lex", n, 0, nb, dtype="i")
    y, w, p = S.array("y", n, 0), S.array("w", n, 0), S.array("p", n, 0, lo_open=True)
    S.assume(S.sum(n, lambda i: S.at(w, i)) > 0)
    mode = S.choice("mode", ["poisson", "location"])
    e = util.make(S, mode, ["a"], {"a": S.mod("flags").IS_UNORDERED})
    e.weights = w
    f = list(e.features)[0]
    g = util.feature(S, bins=nb, lex=lex)
    f.n_multi_bins_finite, f.lex_binned_data = g.n_multi_bins_finite, lex
    fac, agg = S.array("factors", nb + 1), S.array("aggregated", nb + 1)
    f.factors_link, f.fitted_aggregated = fac, agg
    S.stub(f, "bind_data", lambda X, weights: None)
    keep = [S.copy(x) for x in (y, w, p, fac, agg)]
    util.quiet(e.prepare_plots, None, y, p)
    S.ensure("still the same arrays", f.factors_link is fac and f.fitted_aggregated is agg and e.weights is w)
    for nm, x, z, m in (("target", y, keep[0], n), ("weights", w, keep[1], n), ("prediction", p, keep[2], n), ("factors", fac, keep[3], nb + 1), ("accumulated factors", agg, keep[4], nb + 1)):
        S.ensure_forall(nm + " unchanged", m, lambda i: S.eq(S.at(x, i), S.at(z, i), 0, 0))


@bounded("P29", [O + "calc_in_sample_histograms", "utils.calc_linear_bins", "utils.digitize", "utils.calc_means_medians", "utils.calc_weighted_quantile"], trials=150)
def histograms(S):
    """bounded: the histograms leave target, prediction and weights unchanged"""
    rng = S.rng
    n = S.int("n", 2, 40)
    y = rng.poisson(2, n).astype(float) if rng.random() < 0.7 else (rng.random(n) < 0.5).astype(float)
    p, w = rng.uniform(0, 5, n), rng.uniform(0.1, 2, n)
    q = None if rng.random() < 0.5 else float(rng.uniform(0.1, 0.9))
    k = [x.copy() for x in (y, p, w)]
    r = util.quiet(S.mod("observers").calc_in_sample_histograms, y, p, w, q)
    S.ensure("inputs unchanged", all(np.array_equal(a, b) for a, b in zip(k, (y, p, w))))
    S.ensure("four results", len(r) == 4 and len(r[0]) == len(r[1]))
