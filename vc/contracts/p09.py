"""Stop criteria, loss change and divergence."""
import numpy as np

from ..spec import bounded, contract
from . import util

B = "base.CyclicBoostingBase."


def _est(S, **kw):
    return util.make(S, "poisson", ["a"], {"a": S.mod("flags").IS_UNORDERED}, **kw)


def _stop(S, it, delta, change, mi, mf, ml):
    return S.ge(it, mi, 0, 0), S.le(delta, mf, 0, 0), S.le(S.abs(change), ml, 0, 0)


@contract("P09", [B + "_check_stop_criteria"])
def stop_criteria(S):
    hier = S.choice("hier", [None, ["a"]])
    e = _est(S, hierarchical_feature_groups=hier)
    mi, mf, ml = S.int("maximal_iterations", 0), S.real("minimal_factor_change", 0), S.real("minimal_loss_change", 0)
    th = S.int("hierarchical_iterations", 0)
    e.maximal_iterations, e.minimal_factor_change, e.minimal_loss_change, e.training_iterations_hierarchical_features = mi, mf, ml, th
    it = S.int("iterations", 0)
    delta, change = S.real("delta", kind="any"), S.real("loss_change", kind="any")
    if not S.sym and S.rng.random() < 0.3:
        if "delta" not in S.given:
            delta = S._rec("delta", mf)
        if "loss_change" not in S.given:
            change = S._rec("loss_change", ml * S.rng.choice([-1, 1]))
    cp = S.mod("utils").ConvergenceParameters()
    cp.set_loss_change(change)
    cp.set_delta(delta)
    r = e._check_stop_criteria(it, cp)
    a, b, c = _stop(S, it, delta, change, mi, mf, ml)
    sa, sb, sc = e.stop_criteria_
    S.ensure("iteration limit reported exactly when reached", S.iff(sa, a))
    S.ensure("factor change reported exactly when reached", S.iff(sb, b))
    S.ensure("loss change reported exactly when reached", S.iff(sc, c))
    veto = S.le(it, th, 0, 0) if hier is not None else False
    S.ensure("stops exactly when a criterion holds after the start-up phase", S.iff(r, S.and_(S.or_(a, b, c), S.not_(veto))))


@contract("P09", ["utils.ConvergenceParameters"])
def convergence_defaults(S):
    """nothing is met before the first cycle"""
    cp = S.mod("utils").ConvergenceParameters()
    S.ensure("no stop by change before the first cycle", S.and_(cp.loss_change > 1, cp.delta > 1))
    other = S.mod("utils").ConvergenceParameters()
    v, w = S.real("v"), S.real("w")
    cp.set_loss_change(v)
    cp.set_delta(w)
    S.ensure("stored", S.and_(S.eq(cp.loss_change, v, 0, 0), S.eq(cp.delta, w, 0, 0)))
    S.ensure("not shared between trainings", S.and_(other.loss_change > 1, other.delta > 1))


@contract("P09", [B + "_update_loss", B + "_check_convergence", B + "is_diverged"])
def loss_change(S):
    e = _est(S)
    old, new, init = S.real("old", 0), S.real("new", 0), S.real("initial", 0)
    d = S.int("diverging", 0, 4)
    e.insample_loss_, e.initial_loss_, e.iteration_ = old, init, S.int("iteration", 0)
    e.diverging, e.is_diverging = d, S.choice("was", [False, True])
    n = S.dim("n", 1)
    p, y, e.weights = S.array("p", n), S.array("y", n), S.array("w", n, 0)
    S.stub(e, "loss", lambda a, b, c: new)
    exc, r = S.call(e._update_loss, p, y)
    div = S.gt(new, 2 * init)
    if exc is not None:
        S.ensure("only the fifth diverging cycle raises a convergence error", type(exc).__name__ == "ConvergenceError")
        S.ensure("raised exactly for the fifth diverging cycle", S.and_(div, S.eq(d, 4, 0, 0)))
        return
    S.ensure("the fifth diverging cycle raises", S.not_(S.and_(div, S.ge(d, 4, 0, 0))))
    S.ensure("loss stored", S.eq(e.insample_loss_, new, 0, 0))
    S.ensure("relative decrease of the loss", S.implies(S.ne(old, 0), lambda: S.eq(r * old, old - new)))
    S.ensure("absolute decrease if the loss was zero", S.implies(S.eq(old, 0, 0, 0), lambda: S.eq(r, old - new)))
    S.ensure("diverging exactly above twice the initial loss", S.iff(e.is_diverging, div))
    S.ensure("diverging cycles are counted", S.eq(e.diverging, d + S.ite(div, 1, 0), 0, 0))


@contract("P09", [B + "loss"])
def loss(S):
    e = _est(S)
    n = S.dim("n", 0)
    p, y, w = S.array("p", n), S.array("y", n), S.array("w", n, 0)
    W = S.sum(n, lambda i: S.at(w, i))
    S.assume(S.implies(n > 0, W > 0))
    exc, r = S.call(e.loss, p, y, w)
    if exc is not None:
        S.ensure("only empty data is rejected", S.and_(isinstance(exc, ValueError), S.eq(n, 0, 0, 0)))
        return
    S.ensure("empty data is rejected", n > 0)
    S.ensure("weighted mean squared error", S.eq(r * W, S.sum(n, lambda i: (S.at(p, i) - S.at(y, i)) * (S.at(p, i) - S.at(y, i)) * S.at(w, i))))


@contract("P09", ["base._factors_deviation"])
def factor_change(S):
    m = S.mod("base")
    k = S.choice("features", [1, 2, 3])
    fs, sums = [], []
    for j in range(k):
        f = type("F", (), {})()
        n = S.dim("n%d" % j, 1)
        f.factors_link, f.factors_link_old = S.array("f%d" % j, n), S.array("g%d" % j, n)
        fs.append(f)
        a, b = f.factors_link, f.factors_link_old
        sums.append(S.sum(n, lambda i: S.abs(S.at(a, i) - S.at(b, i))) / n)
    r = m._factors_deviation(fs)
    t = sums[0]
    for s in sums[1:]:
        t = t + s
    S.ensure("mean over the features of the mean absolute change", S.eq(r * k, t))


class _Pred:
    def __init__(self, v):
        self.v = v

    def predict_link(self):
        return self.v


def _loop(S, horizon, mi_opts):
    """the training loop with every cycle's loss and factor change arbitrary"""
    base = S.mod("base")
    e = _est(S, hierarchical_feature_groups=S.choice("hier", [None, ["a"]]))
    mi = S.choice("maximal_iterations", mi_opts)
    e.training_iterations_hierarchical_features = S.choice("hier_iterations", [0, 1])
    mf, ml = S.real("minimal_factor_change", 0), S.real("minimal_loss_change", 0)
    e.maximal_iterations, e.minimal_factor_change, e.minimal_loss_change = mi, mf, ml
    n = S.dim("n", 1)
    y = S.array("y", n)
    e.weights = S.array("w", n, 0)
    e.global_scale_link_ = 0.0
    e.feature_importances = {}
    state = dict(cycle=-1, rolled=[], delta=100.0, change=1e20, div=0, isdiv=False)
    losses = []

    def loss_(p, yy, w):
        if len(losses) > horizon:
            S.assume(False)
        v = S.real("loss%d" % len(losses), 0, None)
        if not S.sym and "loss%d" % len(losses) not in S.given:
            k = len(losses)
            v = S._rec("loss%d" % k, float(S.rng.choice([0.5, 1.0, 1.5, 0.0]) * (losses[0] if losses else 1.0) if S.rng.random() < 0.5 else (losses[0] if losses else 1.0) * S.rng.choice([2.5, 3.0, 2.0])))
        losses.append(v)
        return v

    def dev(fs):
        k = len(losses)
        v = S.real("delta%d" % k, 0)
        state["delta"] = v
        return v

    def features(X, y_, pred, prefit):
        # a new cycle starts: it must be due
        it = state["cycle"] = state["cycle"] + 1
        a, b, c = _stop(S, it, state["delta"], state["change"], mi, mf, ml)
        veto = S.le(it, e.training_iterations_hierarchical_features, 0, 0) if e.hierarchical_feature_groups is not None else False
        S.ensure("another cycle only while none of the criteria is met or the loss diverges", S.or_(S.not_(S.or_(a, b, c)), veto, state["isdiv"]))
        state["veto"] = veto
        return iter(())

    def removed(pred, X):
        state["rolled"].append(state["cycle"])

    if S.sym:

        def check(iterations, cp):
            a, b, c = _stop(S, iterations, cp.delta, cp.loss_change, mi, mf, ml)
            veto = S.le(iterations, e.training_iterations_hierarchical_features, 0, 0) if e.hierarchical_feature_groups is not None else False
            e.stop_criteria_ = (a, b, c)
            return S.and_(S.or_(a, b, c), S.not_(veto))

        S.stub(e, "_check_stop_criteria", check)
    S.stub(e, "loss", loss_)
    S.stub(base, "_factors_deviation", dev, needed=False)
    S.stub(e, "cb_features", features, needed=False)
    S.stub(e, "remove_preds", removed, needed=False)
    S.stub(e, "set_feature_importances", lambda: None, needed=False)
    e.features = []
    orig = e._update_loss

    def upd(p, yy):
        old = losses[-1]
        r = orig(p, yy)
        new = losses[-1]
        state["isdiv"] = S.gt(new, 2 * losses[0])
        state["div"] = state["div"] + S.ite(state["isdiv"], 1, 0)
        state["change"] = r
        return r

    S.stub(e, "_update_loss", upd, needed=False)
    exc, r = S.call(e._fit_main, S.np.zeros((n, 1)), y, _Pred(S.np.zeros(n)))
    return e, exc, state, losses, mi, mf, ml


def _loop_post(S, e, exc, st, losses, mi, mf, ml):
    if exc is not None:
        S.ensure("only a convergence error ends the training early", type(exc).__name__ == "ConvergenceError")
        S.ensure("five diverging cycles (or a diverged end) before the error", S.or_(S.ge(st["div"], 4, 0, 0), st["isdiv"]))
        return
    S.ensure("a training that diverges five times raises", S.not_(S.ge(st["div"], 5, 0, 0)))
    it = st["cycle"] + 1
    S.ensure("number of cycles reported", S.eq(e.iteration_, it, 0, 0))
    S.ensure("no end while the loss is diverging", S.not_(st["isdiv"]))


@contract("P09", [B + "_fit_main"], budget=100, max_paths=3000)
def training_loop(S):
    """bounded in the number of cycles (7); all losses and factor changes arbitrary"""
    S.unroll()
    out = _loop(S, 7 if S.sym else 12, [0, 1, 2])
    e, exc, st, losses, mi, mf, ml = out
    _loop_post(S, *out)
    if exc is None:
        it = st["cycle"] + 1
        a, b, c = e.stop_criteria_
        S.ensure("training ends only with a criterion met", S.or_(a, b, c))
        S.ensure("iteration limit", S.iff(a, S.ge(it, mi, 0, 0)))
        S.ensure("loss limit", S.iff(c, S.le(S.abs(st["change"]), ml, 0, 0)))


@bounded("P09", [B + "_fit_main", B + "_check_stop_criteria", B + "_update_loss"], trials=300)
def trainings(S):
    """bounded: real trainings, number of cycles and criteria against the recorded losses"""
    mode = S.choice("mode", list(util.MODES))
    c = util.Case(S, mode)
    S._rec("rows", c.n)
    mi = S.int("max_it", 1, 8)
    ml = [1e-6, 1e-2, 0.3][S.choice("ml", [0, 1, 2])]
    mf = [1e-4, 1e-2][S.choice("mf", [0, 1])]
    hier = S.choice("h", [None, 0])
    hg = None if hier is None else [c.groups[0]]
    e = util.make(S, mode, c.groups, c.props, **c.kw(S, maximal_iterations=mi, minimal_loss_change=ml, minimal_factor_change=mf, hierarchical_feature_groups=hg))
    losses, devs = [], []
    olos = e.loss
    e.loss = lambda p, y, w: (losses.append(float(olos(p, y, w))), losses[-1])[1]
    base = S.mod("base")
    od = base._factors_deviation
    S.patch(base, "_factors_deviation", lambda f: (devs.append(float(od(f))), devs[-1])[1])
    exc, _ = S.call(util.quiet, e.fit, c.X.copy(), c.y.copy())
    if exc is not None:
        S.ensure("convergence error only: %s" % exc, util.diverged(S, exc))
        return
    if max(losses) > 2 * losses[0] or len(devs) != len(losses) - 1:
        return
    k = len(losses) - 1
    S.ensure("cycles", e.iteration_ == k)

    def crit(t):
        ch = 1e20 if t == 0 else (losses[t - 1] - losses[t]) / (losses[t - 1] or 1.0)
        dl = 100.0 if t == 0 else devs[t - 1]
        return t >= mi, dl <= mf, abs(ch) <= ml

    for t in range(k + 1):
        stop = any(crit(t)) and not (hg is not None and t <= 3)
        S.ensure("cycle %d" % t, stop == (t == k))
    S.ensure("criteria", tuple(bool(x) for x in e.stop_criteria_) == crit(k))
