"""Missing, unseen or invalid feature values never break a prediction."""
import numpy as np

from ..spec import bounded, contract
from . import util
from .p08 import _nb, _pos, _prod

B = "base.CyclicBoostingBase."
PF = "base._predict_factors"
DIMS = ["groups of 1 to 3 features in the proofs (operations along the features of a group are unrolled)"]


def _rows(S, n, m, nb):
    """any values; concretely a mix of bins, unseen bins and invalid values"""
    X = S.array("X", (n, m), kind="any", ints=True)
    if not S.sym and "X" not in S.given:
        pool = [-1.0, -7.0, np.nan, np.inf, -np.inf, 1e19, 1e300, -1e300] + [float(v) for v in range(max(nb) + 3)] * 3
        X = S._rec("X", S.rng.choice(pool, (n, m)))
    return X


def _ok(S, X, i, m):
    return S.and_(*[S.and_(S.isfinite(S.at(X, i, k)), S.ge(S.at(X, i, k), 0, 0, 0)) for k in range(m)])


@contract("P04", ["utils.slice_finite_semi_positive"], trials=200, assumes=DIMS)
def valid_rows(S):
    m = S.choice("m", [0, 1, 2, 3])
    n = S.dim("n", 0)
    if m == 0:
        x = S.array("x", n, kind="any")
        r = S.mod("utils").slice_finite_semi_positive(x)
        S.ensure_forall("finite and not negative", n, lambda i: S.iff(S.at(r, i), S.and_(S.isfinite(S.at(x, i)), S.ge(S.at(x, i), 0, 0, 0))))
    else:
        X = _rows(S, n, m, [2])
        r = S.mod("utils").slice_finite_semi_positive(X)
        S.ensure_forall("every value finite and not negative", n, lambda i: S.iff(S.at(r, i), _ok(S, X, i, m)))
    S.ensure("one answer per row", S.eq(S.len(r), n, 0, 0))


@contract("P04", [PF, "utils.slice_finite_semi_positive"], trials=300, assumes=DIMS)
def contribution(S):
    """finite for every row: whatever a smoother answers (also nothing finite), and whatever was learned"""
    m = S.choice("m", [1, 2, 3])
    n, b = S.dim("n", 1), S.dim("b", 1)
    f = util.feature(S, tuple("abc"[:m]))
    X = _rows(S, n, m, [b])
    rate = S.real("rate", 0, 1)
    neutral = S.real("neutral", -2, 2)
    fac = S.array("factors", b + 1)
    f.factors_link, f.learn_rate = S.copy(fac), rate
    kind = S.choice("smoother", ["values", "none"])
    V = S.array("answers", n, kind="any")
    f.smoother = None
    if kind == "values":
        # the answers for the valid rows, in their order
        sl = S.mod("utils").slice_finite_semi_positive(X)
        got = []

        class Sm:
            def predict(self, Z):
                got.append(Z)
                return V[sl]

        f.smoother = Sm()
    X0 = S.copy(X)
    r = S.mod("base")._predict_factors(f, X, neutral)
    S.ensure("one contribution per row", S.eq(S.len(r), n, 0, 0))
    S.ensure_forall("finite for every row", n, lambda i: S.isfinite(S.at(r, i)))
    S.ensure_forall("a missing value contributes what was learned for missing values", n, lambda i: S.implies(S.not_(_ok(S, X0, i, m)), lambda: S.eq(S.at(r, i), S.at(fac, b), 0, 0)))
    if kind == "values":
        fin = lambda i: S.isfinite(rate * S.at(V, i))
        S.ensure_forall("a valid row contributes its smoothed value", n, lambda i: S.implies(S.and_(_ok(S, X0, i, m), fin(i)), lambda: S.eq(S.at(r, i), rate * S.at(V, i), 1e-12, 0)))
        S.ensure_forall("a row without an answer contributes neutrally", n, lambda i: S.implies(S.and_(_ok(S, X0, i, m), S.not_(fin(i))), lambda: S.eq(S.at(r, i), neutral, 0, 0)))
        for Z in got:
            S.ensure("the smoother is asked for the features of the group", S.eq(Z.shape[1], m, 0, 0))
    else:
        S.ensure_forall("without any learned bin the contribution is neutral", n, lambda i: S.implies(_ok(S, X0, i, m), lambda: S.eq(S.at(r, i), neutral, 0, 0)))
    S.ensure_forall("input unchanged", (n, m), lambda i, k: S.or_(S.eq(S.at(X, i, k), S.at(X0, i, k), 0, 0), S.and_(S.isnan(S.at(X, i, k)), S.isnan(S.at(X0, i, k)))))


@contract("P04", ["smoothing.onedim.PredictingBinValueMixin.predict"], trials=400)
def look_up_1d(S):
    """bin look-up: value of the bin, no answer outside the trained range, for any value"""
    n, b = S.dim("n", 0), S.dim("b", 1)
    v = S.array("values", b)
    X = _rows(S, n, 1, [b])
    sm = S.mod("smoothing.onedim").BinValuesSmoother()
    sm.smoothed_y_ = v
    r = sm.predict(X)
    ok = lambda i: S.and_(_ok(S, X, i, 1), S.lt(S.at(X, i, 0), b))
    S.ensure("one answer per row", S.eq(S.len(r), n, 0, 0))
    S.ensure_forall("value of the bin", n, lambda i: S.implies(ok(i), lambda: S.eq(S.at(r, i), S.at(v, S.integer(S.at(X, i, 0))), 0, 0)))
    S.ensure_forall("no answer for anything else", n, lambda i: S.implies(S.not_(ok(i)), lambda: S.isnan(S.at(r, i))))


@contract("P04", ["smoothing.multidim.PredictingBinValueMixin.predict", "utils.bin_steps"], trials=400, assumes=DIMS)
def look_up_nd(S):
    m = S.choice("m", [2, 3])
    nb, a = _nb(S, m)
    n = S.dim("n", 0)
    total = _prod(nb)
    v = S.array("values", total)
    X = _rows(S, n, m, nb if not S.sym else [1])
    if S.sym:
        t, T, x, w = S.int("t", 0, None), S.int("T", 0, None), S.int("x", 0, None), S.int("w", 0, None)
        S.ensure("lemma: one more digit stays in range", S.implies(S.and_(t < T, x < w), lambda: S.and_(t * w + x >= 0, t * w + x < T * w)))

        def lemma(i):
            run, tot, out = S.integer(S.at(X, i, 0)), nb[0], []
            for k in range(1, m):
                run, tot = run * nb[k] + S.integer(S.at(X, i, k)), tot * nb[k]
                out.append(S.and_(run >= 0, run < tot))
            return S.and_(*out)

        S.assume_forall(n, lambda i: S.implies(S.and_(_ok(S, X, i, m), *[S.lt(S.at(X, i, k), nb[k]) for k in range(m)]), lambda: lemma(i)))
    sm = S.mod("smoothing.multidim").BinValuesSmoother()
    sm.smoothed_y_, sm.n_bins_ = v, a
    sm._bin_steps = S.mod("utils").bin_steps(a)
    r = sm.predict(X)

    def ok(i):
        return S.and_(_ok(S, X, i, m), *[S.lt(S.at(X, i, k), nb[k]) for k in range(m)])

    S.ensure("one answer per row", S.eq(S.len(r), n, 0, 0))
    S.ensure_forall("value of the bin", n, lambda i: S.implies(ok(i), lambda: S.eq(S.at(r, i), S.at(v, _pos([S.integer(S.at(X, i, k)) for k in range(m)], nb)), 0, 0)))
    S.ensure_forall("no answer for anything else", n, lambda i: S.implies(S.not_(ok(i)), lambda: S.isnan(S.at(r, i))))


@contract("P04", ["smoothing.base.SetNBinsMixin.set_n_bins", "features.Feature._get_data_for_smoother", "features.Feature.bin_centers"], trials=100, sym=False)
def bins_known(S):
    """the grid handed to the smoothers: one row per bin and the missing bin, in lexicographic order"""
    m = S.choice("m", [1, 2, 3])
    nb = [int(v) for v in S.rng.integers(1, 5, m)]
    f = util.feature(S, tuple("abc"[:m]), bins=nb)
    t = int(np.prod(nb))
    f.bin_weightsums = S.rng.random(t + 1)
    u = S.rng.random(t + 1)
    G = f._get_data_for_smoother(u)
    S.ensure("shape", G.shape == (t + 1, m + 2))
    want = np.array(np.unravel_index(np.arange(t), nb)).T
    S.ensure("bins in lexicographic order", bool(np.array_equal(G[:-1, :m], want)))
    S.ensure("missing bin last", bool(np.isnan(G[-1, :m]).all()))
    S.ensure("weights and uncertainties", bool(np.array_equal(G[:, m], f.bin_weightsums) and np.array_equal(G[:, m + 1], u)))
    if m > 1:
        sm = S.mod("smoothing.multidim").BinValuesSmoother()
        sm.fit(G[:-1], np.arange(t, dtype=float))
        S.ensure("numbers of bins recovered", list(sm.n_bins_) == nb)
        S.ensure("every bin finds its value", bool(np.array_equal(sm.predict(G[:-1, :m]), np.arange(t))))


@contract("P04", ["features.Feature.update_factors", "features.Feature.missing_not_learned"], trials=200)
def missing_bin(S):
    """value of the missing bin: neutral when declared as not to be learned, else the damped estimate"""
    fl = S.mod("flags")
    m = S.choice("m", [1, 2])
    which = S.choice("not_learned", [None, 0, 1])
    props = [fl.IS_UNORDERED] * m
    if which is not None and which < m:
        props[which] |= fl.MISSING_NOT_LEARNED
    b = S.dim("b", 0)
    bins = [b] if m == 1 else [b, 1]
    f = util.feature(S, tuple("ab"[:m]), prop=tuple(props), bins=bins, wsum=S.array("w", b + 1, 0))
    est, unc = S.array("estimate", b + 1), S.array("uncertainty", b + 1, 0, lo_open=True)
    cur = S.array("current", b + 1)
    f.factors_link = S.copy(cur)
    rate, neutral = S.real("rate", 0, 1), S.real("neutral", -1, 1)
    fits = []

    class Sm:
        def fit(self, X, y):
            fits.append((X, y))

    f.smoother = Sm()
    f.smootherb = Sm()
    S.stub(f, "_get_data_for_smoother", lambda u_: S.np.zeros((b + 1, m + 2)))
    e0 = S.copy(est)
    f.update_factors(S.copy(est), unc, neutral, rate)
    learned = which is None or which >= m
    want = S.at(e0, b) * rate if learned else neutral
    S.ensure("value of the missing bin", S.eq(S.at(f.factors_link, b), want, 1e-12, 0))
    S.ensure_forall("what was learned before is kept for comparison", b + 1, lambda j: S.eq(S.at(f.factors_link_old, j), S.at(cur, j), 0, 0))
    for X, y in fits:
        S.ensure("smoothed without the missing bin", S.and_(S.eq(S.len(y), b, 0, 0), S.eq(S.len(X), b, 0, 0)))
        S.ensure_forall("the smoother sees the estimates", b, lambda j: S.eq(S.at(y, j), S.at(e0, j), 0, 0))
    if not S.sym and b == 0:
        S.ensure("no smoother without bins", f.smoother is None)


@contract("P04", [B + "_get_prior_predictions", "nbinom.CBNBinomC._get_prior_predictions"], trials=300)
def prior(S):
    """a row with a prior prediction that is not finite falls back to the global scale"""
    mode = S.choice("mode", ["location", "poisson", "classifier", "nbinomc", "none"])
    n = S.dim("n", 1)
    e = util.make(S, "poisson" if mode == "none" else mode, ["a"], None, prior_prediction_column=None if mode == "none" else "p")
    g, off = S.real("scale"), S.real("offset")
    e.global_scale_link_, e.prior_pred_link_offset_ = g, off
    p = S.array("p", n, 0 if mode == "poisson" else None, kind="any")
    if mode == "poisson" and not S.sym and "p" not in S.given:
        p = S._rec("p", np.where(S.rng.random(n) < 0.3, S.rng.choice([0.0, np.nan, np.inf], n), np.abs(np.where(np.isfinite(p), p, 1.0))))
    if mode in ("classifier", "nbinomc") and not S.sym and "p" not in S.given:
        p = S._rec("p", np.where(S.rng.random(n) < 0.6, S.rng.random(n), p))
    if mode == "poisson":
        # a negative prior prediction is rejected (property P11)
        S.assume_forall(n, lambda i: S.or_(S.isnan(S.at(p, i)), S.ge(S.at(p, i), 0, 0, 0)))
    X = S.frame({"p": p, "a": S.array("a", n)})
    exc, r = S.call(e._get_prior_predictions, X)
    if exc is not None:
        S.ensure("no error", False)
        return
    S.ensure("one offset per row", S.eq(S.len(r), n, 0, 0))
    S.ensure_forall("finite offset", n, lambda i: S.isfinite(S.at(r, i)))
    if mode == "none":
        S.ensure_forall("global scale", n, lambda i: S.eq(S.at(r, i), g, 0, 0))
        return
    if mode == "nbinomc":
        # the offset of the dispersion mode is the prior prediction itself, the scale is neutral
        g, off = 0.0, 0.0
    if mode == "location":
        ok, lk = (lambda i: S.isfinite(S.at(p, i))), (lambda i: S.at(p, i))
    elif mode == "poisson":
        ok, lk = (lambda i: S.and_(S.isfinite(S.at(p, i)), S.gt(S.at(p, i), 0))), (lambda i: S.log(S.at(p, i)))
    else:
        ok, lk = (lambda i: S.and_(S.isfinite(S.at(p, i)), S.gt(S.at(p, i), 0), S.lt(S.at(p, i), 1))), (lambda i: S.log(S.at(p, i) / (1.0 - S.at(p, i))))
    S.ensure_forall("shifted prior prediction", n, lambda i: S.implies(ok(i), lambda: S.eq(S.at(r, i), lk(i) + off, 1e-9, 1e-9)))
    S.ensure_forall("global scale where the prior prediction is not usable", n, lambda i: S.implies(S.not_(ok(i)), lambda: S.eq(S.at(r, i), g, 0, 0)))


@bounded("P04", [B + "predict", B + "get_feature_contributions", PF], trials=150)
def fitted_models(S):
    """bounded: fitted models of every mode on rows with invalid, missing and unseen values"""
    mode = S.choice("mode", list(util.ALLMODES))
    c = util.Case(S, mode, n=int(S.rng.integers(6, 50)))
    try:
        e = c.fit(S)
    except Exception as x:
        S.ensure("only divergence stops a fit", util.diverged(S, x))
        return
    n = int(S.rng.integers(2, 12))
    Z = c.X.iloc[S.rng.integers(0, c.n, n)].reset_index(drop=True).astype(float)
    pool = [np.nan, -1.0, -3.7, np.inf, -np.inf, 1e19, 1e300, 50.0, 7.0, 0.0]
    for col in c.features:
        hit = S.rng.random(n) < 0.5
        Z.loc[hit, col] = S.rng.choice(pool, hit.sum())
    if c.prior:
        Z.loc[S.rng.random(n) < 0.4, "prior"] = S.rng.choice([np.nan, np.inf])
    con = util.quiet(e.get_feature_contributions, Z)
    p = util.quiet(e.predict, Z)
    S.ensure("finite predictions", bool(np.isfinite(p).all()))
    for f in e.features:
        name = " ".join(f.feature_group) + ("" if f.feature_type is None else "_%s" % f.feature_type)
        v = np.asarray(con[name])
        S.ensure("finite contributions", bool(np.isfinite(v).all()))
        A = Z[list(f.feature_group)].values
        miss = ~(np.isfinite(A) & (A >= 0)).all(axis=1)
        nan = pd_missing(Z, f.feature_group)
        ref = np.asarray(util.quiet(e.get_feature_contributions, nan)[name])[0]
        S.ensure("every missing value contributes the same learned value", bool(np.allclose(v[miss], ref, rtol=1e-12)))
        neutral = float(np.asarray(e.unlink_func(np.array([0.0])))[0])
        if f.missing_not_learned:
            S.ensure("missing values declared as not to be learned are neutral", abs(ref - neutral) < 1e-12)
        top = [np.nanmax(np.where(np.isfinite(c.X[g]) & (c.X[g] >= 0), c.X[g], np.nan)) if (np.isfinite(c.X[g]) & (c.X[g] >= 0)).any() else -1 for g in f.feature_group]
        unseen = ~miss & (A > np.array(top) + 1).any(axis=1)
        S.ensure("bins never seen contribute neutrally", bool(np.allclose(v[unseen], neutral, rtol=1e-12, atol=1e-12)))


def pd_missing(Z, group):
    nan = Z.head(1).copy()
    for g in group:
        nan[g] = np.nan
    return nan
