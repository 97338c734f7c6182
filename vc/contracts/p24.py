"""P24: exponential price model."""
import numpy as np

from . import p01, util
from ..spec import bounded, contract

PR = "price."
BIS = PR + "newton_bisect"


@contract("P24", [PR + "_set_right_bound"])
def right_bound(S):
    """the right bound only grows, and only where the bin is valid"""
    m = S.mod("price")
    nb = S.dim("nb", 1)
    valid = S.array("valid", nb, dtype="b")
    x = S.array("x", nb, lo=0, lo_open=True)
    x0 = S.copy(x)

    def step(l, *args, only_jac=False):
        return S.array("jac", nb, kind="any") if S.sym else S.rng.normal(size=nb)

    S.stub(m, "newton_step", step, needed=False)

    def inv(st):
        return [
            ("the bound never shrinks", nb, lambda j: S.at(st.x, j) >= S.at(x0, j)),
            ("bounds of other bins stay", nb, lambda j: S.implies(S.not_(S.at(valid, j)), lambda: S.eq(S.at(st.x, j), S.at(x0, j), 0, 0))),
        ]

    S.invariant("_set_right_bound#", inv, arrays=("x",))
    exc, r = S.call(m._set_right_bound, x, (), valid)
    S.ensure("no error", exc is None)
    S.ensure_forall("the bound never shrinks", nb, lambda j: S.at(r, j) >= S.at(x0, j))
    S.ensure_forall("bounds of invalid bins stay", nb, lambda j: S.implies(S.not_(S.at(valid, j)), lambda: S.eq(S.at(r, j), S.at(x0, j), 0, 0)))


@contract("P24", [BIS])
def root_finder(S):
    """every valid bin ends inside its search interval, whatever the steps suggest"""
    m = S.mod("price")
    nb = S.dim("nb", 1)
    its = S.int("its", 1, None if S.sym else 15)
    valid = S.array("valid", nb, dtype="b")
    xl = S.array("xl", nb, lo=0)
    width = S.array("width", nb, lo=0, lo_open=True)
    xr = xl + width
    l0, v0 = S.copy(xl), S.copy(valid)
    eps = S.real("eps", 0, 0.5, lo_open=True)
    start = S.choice("start", ["none", "given"])
    sv = None if start == "none" else S.array("start", nb, lo=0, hi=None if S.sym else 5)
    if S.sym:
        grown = S.array("grown", nb, lo=0)
        S.stub(m, "_set_right_bound", lambda x, args, valid: _grow(S, x, grown, top))
    calls, top = [], {}
    kind = S.choice("steps", ["finite", "any"])

    def step(l, *args, only_jac=False):
        if only_jac:
            return S.rng.normal(size=nb)
        calls.append(1)
        if S.sym:
            return [S.array(k + str(len(calls)), nb, kind=kind) for k in ("l_new", "jac", "hess")]
        f = S.rng.choice([0.01, 1, 30])
        out = [S.rng.normal(size=nb) * f + (1 if k else 0) for k in (1, 0, 0)]
        if kind == "any":
            for v in out:
                hit = S.rng.random(nb) < 0.1
                v[hit] = S.rng.choice([np.nan, np.inf, -np.inf], hit.sum())
        return out

    if not S.sym:
        S.patch(m, "newton_step", step)

    def inv(st):
        return [
            ("the interval stays inside the first one", nb, lambda j: S.and_(S.at(l0, j) <= S.at(st.x_l, j), S.at(st.x_r, j) <= S.at(top["r"], j))),
            ("the bounds stay ordered", nb, lambda j: S.at(st.x_l, j) <= S.at(st.x_r, j)),
            ("validity is not gained", nb, lambda j: S.implies(S.at(st.valid, j), lambda: S.at(v0, j))),
            ("only a step that is not finite ends validity", nb, lambda j: S.implies(S.at(v0, j), lambda: S.or_(S.at(st.valid, j), S.and_(kind == "any", S.eq(S.at(st.l, j), 1, 0, 0))))),
            ("the value is inside the interval", nb, lambda j: S.implies(S.at(st.valid, j), lambda: S.and_(S.at(st.x_l, j) <= S.at(st.l, j), S.at(st.l, j) <= S.at(st.x_r, j)))),
        ]

    S.invariant("newton_bisect#", inv, arrays=("x_l", "x_r"), rebinds={"l": ((nb,), "f"), "valid": ((nb,), "b"), "hess": ((nb,), "f" if kind == "finite" else kind)})
    exc, r = S.call(m.newton_bisect, step, (), valid, xl, xr, epsilon=eps, maximal_iterations=its, start_values=sv)
    S.ensure("no error", exc is None)
    l, var, lo, hi = r
    S.ensure_forall("the left bounds are the given ones", nb, lambda j: S.eq(S.at(lo, j), S.at(l0, j), 0, 0))
    S.ensure_forall("the right bounds are not below the given ones", nb, lambda j: S.at(hi, j) >= S.at(l0, j) + S.at(width, j) - (0 if S.sym else 1e-12))
    S.ensure_forall(
        "a valid bin ends inside its interval",
        nb,
        lambda j: S.implies(S.at(v0, j), lambda: S.or_(S.and_(S.at(lo, j) <= S.at(l, j), S.at(l, j) <= S.at(hi, j)), S.and_(kind == "any", S.eq(S.at(l, j), 1, 0, 0)))),
    )
    S.ensure_forall("variances are positive where they are numbers", nb, lambda j: S.or_(S.at(var, j) > 0, S.and_(kind == "any", S.isnan(S.at(var, j)))))


def _grow(S, x, grown, top):
    """what `right_bound` states"""
    x += grown
    top["r"] = S.copy(x)
    return x


@contract("P24", [PR + "CBExponential._calc_parameters_exponent", PR + "CBExponential.calc_parameters", PR + "gamma_momemt_matching"])
def exponent_step(S):
    """the bins with data are searched from 0 on, and what the search finds is what enters the model"""
    m, ft = S.mod("price"), S.mod("features")
    n, nb = S.dim("n", 1), S.dim("nb", 0)
    B = nb + 1
    p, _, _ = _state(S, m, n)
    lex, y = S.array("lex", n, 0, nb, dtype="i"), S.array("y", n, 0)
    w = S.array("w", n, 0)
    wsum = S.array("wsum", B, 0)
    e = util.make(S, "exponential", ["a"], {"a": S.mod("flags").IS_UNORDERED})
    e.weights, e.weights_external = w, w
    f = util.feature(S, ftype=ft.FeatureTypes.external, bins=nb, lex=lex, wsum=wsum)
    found, var = S.array("found", B, 0), S.array("var", B, 0, lo_open=True)
    f0, v0 = S.copy(found), S.copy(var)
    seen = []

    def search(newton_step, args, valid, x_l, x_r, epsilon=0.001, maximal_iterations=10, start_values=None):
        seen.append((S.copy(valid), S.copy(x_l), S.copy(x_r)))
        return found, var, x_l, x_r

    S.stub(m, "newton_bisect", search)
    S.stub(m, "_calc_factors_and_uncertainties", lambda alpha, beta, link_func: (alpha, beta))
    exc, r = S.call(e.calc_parameters, f, y, p, None)
    S.ensure("no error", exc is None)
    valid, xl, xr = seen[-1]
    S.ensure_forall("bins with data are searched", B, lambda j: S.iff(S.at(valid, j), S.at(wsum, j) > 0))
    S.ensure_forall("the search starts at 0", B, lambda j: S.and_(S.eq(S.at(xl, j), 0, 0, 0), S.at(xr, j) > 0))
    alpha, beta = r
    S.ensure_forall("mean of the matched distribution", B, lambda j: S.eq(S.at(alpha, j), S.at(beta, j) * S.at(f0, j), 1e-9, 1e-12))
    S.ensure_forall("variance of the matched distribution", B, lambda j: S.eq(S.at(beta, j) * S.at(v0, j), S.at(f0, j), 1e-9, 1e-12))


# ------------------------------------------------------------------ predictions
def _state(S, m, n):
    """predictions in the middle of training: arbitrary parts"""
    parts = {k: S.array(k, n, None if S.sym else -2, None if S.sym else 2) for k in ("fac", "expo", "base")}
    pe = S.array("pe", n, None if S.sym else -3, None if S.sym else 3)
    p = m.CBLinkPredictions(S.copy(parts["fac"]), S.copy(pe), S.copy(parts["base"]))
    p.df["exponents"] = S.copy(parts["expo"])
    return p, parts, pe


def _formula(S, p, n, fac, expo, base, pe, what):
    link = p.predict_link()
    S.ensure_forall(what + ": factors plus prior exponent times exponential times price", n, lambda i: S.eq(S.at(link, i), fac(i) + S.at(pe, i) * S.exp(expo(i)) * S.at(base, i), 1e-9, 1e-9))
    e = p.exponents()
    S.ensure_forall(
        what + ": the elasticity keeps the sign of the prior exponent",
        n,
        lambda i: S.and_(S.iff(S.at(e, i) > 0, S.at(pe, i) > 0), S.iff(S.at(e, i) < 0, S.at(pe, i) < 0)),
    )


@contract("P24", [PR + "CBLinkPredictions.__init__", PR + "CBLinkPredictions.predict_link", PR + "CBLinkPredictions.exponents", "base.UpdateMixin.update_predictions", "base.UpdateMixin.remove_predictions"])
def parts(S):
    """one contribution added to or removed from arbitrary predictions goes to its own part"""
    m, ft = S.mod("price"), S.mod("features")
    n = S.dim("n", 1)
    p, a, pe = _state(S, m, n)
    v = S.array("v", n, None if S.sym else -2, None if S.sym else 2)
    v0 = S.copy(v)
    ext = S.choice("external", [True, False])
    sign = S.choice("sign", [1, -1])
    f = util.feature(S, ("a",), ftype=ft.FeatureTypes.external if ext else None)
    cats = S.choice("categories", [None, {("a",): "part"}, {"a": "part"}])
    (p.update_predictions if sign > 0 else p.remove_predictions)(v, f, cats)
    fac = (lambda i: S.at(a["fac"], i)) if ext else (lambda i: S.at(a["fac"], i) + sign * S.at(v0, i))
    expo = (lambda i: S.at(a["expo"], i) + sign * S.at(v0, i)) if ext else (lambda i: S.at(a["expo"], i))
    _formula(S, p, n, fac, expo, a["base"], pe, "added" if sign > 0 else "removed")
    S.ensure_forall("the contribution itself is left alone", n, lambda i: S.eq(S.at(v, i), S.at(v0, i), 0, 0))
    S.ensure_forall("the price variable and the prior exponent stay", n, lambda i: S.and_(S.eq(S.at(p.base(), i), S.at(a["base"], i), 0, 0), S.eq(S.at(p.prior_exponents(), i), S.at(pe, i), 0, 0)))


@contract("P24", [PR + "CBLinkPredictions.__init__", PR + "CBLinkPredictions.predict_link"])
def begin(S):
    """before any contribution: the prior prediction with the prior exponent"""
    m = S.mod("price")
    n = S.dim("n", 1)
    a, b = S.array("fac", n, None if S.sym else -2, None if S.sym else 2), S.array("base", n, None if S.sym else -1, None if S.sym else 1)
    default = S.choice("default", [True, False])
    pe = S.real("common", -3, 3) if default else S.array("pe", n, -3, 3)
    p = m.CBLinkPredictions(a, pe, b)
    link = p.predict_link()
    S.ensure_forall("prior prediction plus prior exponent times price", n, lambda i: S.eq(S.at(link, i), S.at(a, i) + (pe if default else S.at(pe, i)) * S.at(b, i), 1e-12, 1e-12))


@contract("P24", [PR + "CBExponential._init_external_column", PR + "CBExponential._get_prior_exponent", "utils.get_X_column"])
def price_variable(S):
    n = S.dim("n", 1)
    named = S.choice("prior_exponent", [False, True])
    e = util.make(S, "exponential", ["a"], None, **(dict(prior_exponent_colname="pe") if named else {}))
    cols = {"price": S.array("price", n, kind="any"), "pe": S.array("pe", n), "a": S.array("a", n)}
    keep = {k: S.copy(v) for k, v in cols.items()}
    w = S.array("w", n, lo=0)
    e.weights = w
    X = S.frame(cols)
    fit = S.choice("fit", [True, False])
    e._init_external_column(X, fit)
    x = e.external_col

    def known(i):
        return S.isfinite(S.at(keep["price"], i))

    S.ensure_forall("the price variable is the price ratio minus one", n, lambda i: S.implies(known(i), lambda: S.eq(S.at(x, i), S.at(keep["price"], i) - 1, 1e-12, 1e-12)))
    S.ensure_forall("and zero where the price is missing", n, lambda i: S.implies(S.not_(known(i)), lambda: S.eq(S.at(x, i), 0, 0, 0)))
    if fit:
        we = e.weights_external
        S.ensure_forall("samples without price have no weight in the exponents", n, lambda i: S.eq(S.at(we, i), S.ite(known(i), S.at(w, i), 0), 1e-12, 1e-12))
    q = e._get_prior_exponent(X)
    if named:
        S.ensure_forall("the prior exponent is taken from its column", n, lambda i: S.eq(S.at(q, i), S.at(keep["pe"], i), 0, 0))
    else:
        S.ensure("the default prior exponent is -1", S.eq(q, -1, 0, 0))
    for k in cols:
        c = X[k].values
        S.ensure_forall("data unchanged: " + k, n, lambda i: S.or_(S.eq(S.at(c, i), S.at(keep[k], i), 0, 0), S.not_(S.isfinite(S.at(keep[k], i)))))


contract("P24", [PR + "CBExponential.predict_extended", PR + "CBExponential.predict"], trials=150)(p01.price_model)


@contract("P24", [PR + "combine_lists_of_feature_groups", PR + "_check_feature_groups", PR + "CBExponential.__init__"], trials=120)
def groups(S):
    """standard groups act on the factors, external ones on the exponent"""
    m, ft = S.mod("price"), S.mod("features")
    std = S.choice("standard", [["a"], ["a", ("a", "b")], [("b", "c"), "a", "b"]])
    ext = S.choice("external", [None, [], ["a"], ["c", ("a", "b")]])
    out = m.combine_lists_of_feature_groups(std, ext)
    want = [(g, None) for g in std] + [(g, ft.FeatureTypes.external) for g in (ext or [])]
    S.ensure("one entry per group, standard ones first", len(out) == len(want))
    for o, (g, t) in zip(out, want):
        S.ensure("columns of the group", tuple(o.feature_group) == ((g,) if isinstance(g, str) else tuple(g)))
        S.ensure("kind of the group", o.feature_type is t)
    exc, _ = S.call(m.combine_lists_of_feature_groups, None, ext)
    S.ensure("standard groups are required", isinstance(exc, ValueError))
    wrong = [ft.FeatureID(feature_group=("a",), feature_type=ft.FeatureTypes.external)]
    exc, _ = S.call(m.combine_lists_of_feature_groups, wrong, ext)
    S.ensure("external groups are not standard ones", isinstance(exc, ValueError))
    exc, _ = S.call(m.combine_lists_of_feature_groups, std, [ft.FeatureID(feature_group=("a",), feature_type=None)])
    S.ensure("standard groups are not external ones", isinstance(exc, ValueError))


@bounded("P24", [PR + "CBExponential.fit", PR + "CBExponential._calc_parameters_exponent", PR + "newton_step", BIS], trials=60)
def trained(S):
    """bounded: real trainings; every search and every prediction is inspected"""
    m = S.mod("price")
    c = util.Case(S, "exponential", n=int(S.rng.integers(8, 60)))
    kw = {}
    if S.rng.random() < 0.5:
        c.X["pe"] = S.rng.choice([-2.0, -0.5, 0.5, 1.5]) * S.rng.uniform(0.5, 1.5, c.n)
        kw["prior_exponent_colname"] = "pe"
    real, seen = m.newton_bisect, []

    def search(newton_step, args, valid, x_l, x_r, **k):
        v = np.array(valid)
        r = real(newton_step, args, valid, x_l, x_r, **k)
        seen.append((v, [np.array(a) for a in r]))
        return r

    S.patch(m, "newton_bisect", search)
    try:
        e = c.fit(S, **kw)
    except Exception as x:
        S.ensure("only divergence stops a fit", util.diverged(S, x))
        return
    S.ensure("exponents are searched", len(seen) > 0)
    for v, (l, var, lo, hi) in seen:
        S.ensure("values of valid bins inside the search interval", bool(np.all((lo <= l)[v]) and np.all((l <= hi)[v])))
        S.ensure("positive variances", bool(np.all(var[v] > 0)))
    Z = c.X.copy()
    pe = Z["pe"].values if kw else np.full(c.n, -1.0)
    links = []
    for p in (1.0, 0.5, 2.0, np.nan):
        Z["price"] = p
        links.append(np.asarray(e.predict_extended(Z, None).predict_link()))
    S.ensure("a missing price counts as the reference price", bool(np.allclose(links[0], links[3], rtol=1e-12, atol=1e-12)))
    S.ensure("the elasticity has the sign of the prior exponent", bool(np.all(np.sign(links[2] - links[0]) == np.sign(pe)) and np.all(np.sign(links[1] - links[0]) == -np.sign(pe))))
    S.ensure("the link is linear in the price", bool(np.allclose((links[2] - links[0]), -2 * (links[1] - links[0]), rtol=1e-6, atol=1e-9)))
