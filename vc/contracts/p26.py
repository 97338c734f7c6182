"""Feature groups, properties and smoothers are assembled faithfully."""
import numpy as np

from ..core import SReal
from ..spec import bounded, contract
from .p19 import Token

NBIT = 13


def _bit(p, k):
    return (p // (1 << k)) % 2 == 1


def _has(S, p, name):
    c = getattr(S.mod("flags"), name)
    return S.and_(*[_bit(p, k) for k in range(c.bit_length()) if c >> k & 1])


def _prop(S, name):
    """any property value whose kinds do not contradict each other"""
    p = S.int(name, 0, (1 << NBIT) - 1)
    if not S.sym and name not in S.given:
        F = S.mod("flags")
        pool = [F.IS_UNORDERED, F.IS_ORDERED, F.IS_CONTINUOUS, F.IS_LINEAR, F.IS_CONTINUOUS | F.IS_LINEAR, F.IS_SEASONAL, F.IS_CONTINUOUS | F.IS_SEASONAL, F.IS_MONOTONIC, F.IS_MONOTONIC | F.INCREASING, F.IS_MONOTONIC | F.DECREASING, 0]
        p = pool[int(S.rng.integers(0, len(pool)))] | [0, F.HAS_MISSING, F.MISSING_NOT_LEARNED, F.HAS_MAGIC_INT_MISSING][int(S.rng.integers(0, 4))]
        p = S._rec(name, p)
    lin, sea, mon = _has(S, p, "IS_LINEAR"), _has(S, p, "IS_SEASONAL"), _has(S, p, "IS_MONOTONIC")
    S.assume(S.not_(S.or_(S.and_(lin, sea), S.and_(lin, mon), S.and_(sea, mon))))
    S.assume(S.not_(S.and_(_has(S, p, "INCREASING"), _has(S, p, "DECREASING"))))
    return p


def _kind(S, p):
    """condition per documented kind of feature"""
    lin, sea, mon = _has(S, p, "IS_LINEAR"), _has(S, p, "IS_SEASONAL"), _has(S, p, "IS_MONOTONIC")
    con, od = _has(S, p, "IS_CONTINUOUS"), _has(S, p, "IS_ORDERED")
    inc, dec = _has(S, p, "INCREASING"), _has(S, p, "DECREASING")
    special = S.or_(lin, sea, mon)
    return {
        "linear": lin,
        "seasonal": sea,
        "increasing": S.and_(mon, inc),
        "decreasing": S.and_(mon, dec),
        "monotonic": S.and_(mon, S.not_(inc), S.not_(dec)),
        "continuous": S.and_(con, S.not_(special)),
        "ordered": S.and_(od, S.not_(con), S.not_(special)),
        "unordered": S.not_(S.or_(od, con, special)),
    }


def _is_kind(S, sm, kind, norm):
    sg = S.mod("smoothing")
    one = sg.onedim
    t = type(sm)
    if kind == "linear":
        return t is sg.extrapolate.LinearExtrapolator
    if kind == "seasonal":
        return t is one.SeasonalSmoother and sm.offset_tozero == (not norm)
    if kind in ("increasing", "decreasing", "monotonic"):
        return t is one.IsotonicRegressor and sm.increasing == {"increasing": True, "decreasing": False, "monotonic": "auto"}[kind] and type(sm.increasing) is type({"monotonic": "auto"}.get(kind, True))
    if kind == "continuous":
        return t is one.OrthogonalPolynomialSmoother
    if kind == "ordered":
        return t is one.WeightedMeanSmootherNeighbors
    return t is one.WeightedMeanSmoother and sm.prior_prediction == 0


def _reg(S, props):
    """(condition, regression type) of a group with these properties"""
    RT = S.mod("smoothing.meta_smoother").RegressionType
    lin = [_has(S, p, "IS_LINEAR") for p in props]
    smooth = [S.or_(_has(S, p, "IS_SEASONAL"), _has(S, p, "IS_CONTINUOUS")) for p in props]
    ex = S.and_(*lin)
    ok = S.and_(*[S.or_(a, b) for a, b in zip(lin, smooth)])
    return [(S.not_(ok), RT.discontinuous), (S.and_(ok, S.not_(ex)), RT.interpolating), (ex, RT.extrapolating)]


def _unwrap(S, label, sm, norm, reg, props):
    """checks the meta smoother around sm and returns what it wraps"""
    ms = S.mod("smoothing.meta_smoother")
    want = {(True, True): ms.NormalizationRegressionTypeSmoother, (True, False): ms.NormalizationSmoother, (False, True): ms.RegressionTypeSmoother}.get((norm, reg))
    if want is None:
        return sm
    S.ensure(label + ": meta smoother", type(sm) is want)
    if type(sm) is not want:
        return None
    if reg:
        for cond, rt in _reg(S, props):
            S.ensure(label + ": regression type " + rt.value, S.implies(cond, sm.reg_type == rt))
    return sm.smoother


def _is_default(S, label, sm, p, norm):
    for kind, cond in _kind(S, p).items():
        S.ensure("%s: smoother of a feature that is %s" % (label, kind), S.implies(cond, _is_kind(S, sm, kind, norm)))


def _quiet(S):
    if S.sym:
        S.stub(S.mod("flags"), "flags_to_string", lambda p: "", needed=False)  # text of a log message


def _choice(S, **kw):
    cs = S.mod("common_smoothers")
    _quiet(S)
    norm, reg = S.choice("normalise", [True, False]), S.choice("regression_type", [True, False])
    cls = S.choice("class", [cs.SmootherChoiceWeightedMean, cs.SmootherChoiceGroupBy])
    return cls(use_regression_type=reg, use_normalization=norm, **kw), norm, reg, cls is cs.SmootherChoiceGroupBy


FUN = ["common_smoothers.SmootherChoice.choice_fct", "common_smoothers.SmootherChoice.get_onedim_smoother", "common_smoothers.SmootherChoice.wrap_smoother", "common_smoothers.determine_reg_type", "common_smoothers.determine_meta_smoother", "common_smoothers._simplify_flags", "common_smoothers._default_smoother_types"]


@contract("P26", FUN + ["common_smoothers.SmootherChoiceWeightedMean.get_raw_smoother", "common_smoothers.SmootherChoiceGroupBy.get_raw_smoother"], trials=400)
def one_dimension(S):
    p = _prop(S, "p")
    c, norm, reg, _ = _choice(S)
    sm = _unwrap(S, "1d", c.choice_fct(("x",), (p,), None), norm, reg, [p])
    if sm is not None:
        _is_default(S, "1d", sm, p, norm)


def _multi(S, props):
    c, norm, reg, groupby = _choice(S)
    md = S.mod("smoothing").multidim
    sm = c.choice_fct(tuple("xyz"[: len(props)]), tuple(props), None)
    if groupby:
        S.ensure("group-by smoother", type(sm) is md.GroupBySmootherCB and sm.n_dim == len(props))
        if type(sm) is not md.GroupBySmootherCB:
            return
        inner = sm.est
        inner = _unwrap(S, "innermost", inner, norm, reg, props[-1:])
        if inner is not None:
            _is_default(S, "innermost", inner, props[-1], norm)
    else:
        sm = _unwrap(S, "group", sm, norm, reg, props)
        S.ensure("weighted mean for the whole group", type(sm) is md.WeightedMeanSmoother and sm.prior_prediction == 0)


@contract("P26", FUN + ["common_smoothers.SmootherChoiceGroupBy.wrap_smoother"], trials=300, max_paths=3000)
def two_dimensions(S):
    _multi(S, [_prop(S, "p0"), _prop(S, "p1")])


@contract("P26", FUN + ["common_smoothers.SmootherChoiceGroupBy.wrap_smoother"], trials=300, max_paths=6000)
def three_dimensions(S):
    """the third property may be anything; the first two one of three kinds each"""
    F = S.mod("flags")
    ps = [S.choice("p%d" % k, [F.IS_UNORDERED, F.IS_CONTINUOUS, F.IS_LINEAR]) for k in range(2)]
    _multi(S, ps + [_prop(S, "p2")])


@contract("P26", FUN + ["common_smoothers.SmootherChoice._validate_explicit_smoothers"], trials=200)
def explicit(S):
    """an explicit smoother is used for its own group and for no other"""
    one, md = S.mod("smoothing").onedim, S.mod("smoothing").multidim
    p, q = _prop(S, "p"), S.choice("q", [S.mod("flags").IS_UNORDERED, S.mod("flags").IS_LINEAR])
    mine = one.PolynomialSmoother(k=S.choice("k", [1, 3]))
    mine2 = md.WeightedMeanSmoother()
    c, norm, reg, groupby = _choice(S, explicit_smoothers={("x",): mine, ("x", "y"): mine2})
    sm = _unwrap(S, "explicit", c.choice_fct(("x",), (p,), None), norm, reg, [p])
    S.ensure("explicit smoother of a column", sm is mine)
    sm = _unwrap(S, "explicit pair", c.choice_fct(("x", "y"), (p, q), None), norm, reg, [q] if groupby else [p, q])
    S.ensure("explicit smoother of a pair", sm is mine2)
    sm = _unwrap(S, "other", c.choice_fct(("y",), (p,), None), norm, reg, [p])
    if sm is not None:
        _is_default(S, "other", sm, p, norm)
    sm = c.choice_fct(("y", "x"), (q, p), None)
    if not groupby:
        sm = _unwrap(S, "other order", sm, norm, reg, [q, p])
        S.ensure("a pair in the other order is not affected", type(sm) is md.WeightedMeanSmoother and sm is not mine2)


@contract("P26", ["common_smoothers.SmootherChoice._validate_explicit_smoothers"], trials=20)
def explicit_validated(S):
    cs, one = S.mod("common_smoothers"), S.mod("smoothing").onedim
    bad = S.choice("bad", [{"x": one.WeightedMeanSmoother()}, {("x",): "smoother"}, {("x", 1): one.WeightedMeanSmoother()}, {("x",): one.WeightedMeanSmoother, ("y",): one.WeightedMeanSmoother()}])
    exc, _ = S.call(cs.SmootherChoiceWeightedMean, explicit_smoothers=bad)
    S.ensure("rejected", isinstance(exc, ValueError))


@contract("P26", ["common_smoothers.NoSmootherChoice.choice_fct"], trials=100)
def no_smoothing(S):
    _quiet(S)
    cs, one, md = S.mod("common_smoothers"), S.mod("smoothing").onedim, S.mod("smoothing").multidim
    norm, reg = S.choice("normalise", [True, False]), S.choice("regression_type", [True, False])
    c = cs.NoSmootherChoice(use_regression_type=reg, use_normalization=norm)
    p = _prop(S, "p")
    S.ensure("one column", type(_unwrap(S, "1d", c.choice_fct(("x",), (p,), None), norm, reg, [p])) is one.BinValuesSmoother)
    S.ensure("two columns", type(_unwrap(S, "2d", c.choice_fct(("x", "y"), (p, p), None), norm, reg, [p, p])) is md.BinValuesSmoother)


COLS = ["x", "y", 0, "x y"]


def _parts(o, seen=None, depth=0):
    """ids of the mutable objects an object is made of"""
    seen = {} if seen is None else seen
    if o is None or isinstance(o, (bool, int, float, str, bytes, type, np.generic, SReal)) or id(o) in seen or depth > 8:
        return seen
    import enum

    if isinstance(o, enum.Enum) or callable(o) and not hasattr(o, "fit"):
        return seen
    if isinstance(o, (tuple, frozenset)):
        for v in o:
            _parts(v, seen, depth + 1)
        return seen
    seen[id(o)] = o
    for v in o.values() if isinstance(o, dict) else o if isinstance(o, (list, set)) else vars(o).values() if hasattr(o, "__dict__") else []:
        _parts(v, seen, depth + 1)
    return seen


@contract("P26", ["features.create_features", "features.create_feature_id", "features.Feature.__init__", "features.FeatureList.__getitem__", "features.FeatureList.get_feature", "features.FeatureList.feature_groups", "features.FeatureList.feature_ids", "flags.read_feature_property", "utils.clone"], trials=400, max_paths=4000)
def creation(S):
    """lists of up to three groups (symbolically) over columns with any property"""
    ft, F, cs, one = S.mod("features"), S.mod("flags"), S.mod("common_smoothers"), S.mod("smoothing").onedim
    _quiet(S)
    ID, ext = ft.FeatureID, ft.FeatureTypes.external
    shapes = [
        ("x", ("x",), None),
        (("x", "y"), ("x", "y"), None),
        (0, (0,), None),
        (ID(("x",), ext), ("x",), ext),
        (ID(("y", "x"), None), ("y", "x"), None),
        (("y",), ("y",), None),
    ]
    n = S.choice("number", [0, 1, 2, 3] if S.sym else [0, 1, 2, 3, 4, 5, 6])
    if S.sym:
        start, step = S.choice("start", list(range(len(shapes)))), S.choice("step", [1, 2])
        picked = [shapes[(start + k * step) % len(shapes)] for k in range(n)]
    else:
        order = []
        for k in range(n):
            left = [s for s in range(len(shapes)) if s not in order]
            order.append(left[S.choice("pick%d" % k, list(range(6))) % len(left)])
        picked = [shapes[k] for k in order]
    known = S.choice("known", [("x", "y", 0), ("x",), ("y", 0), None])
    props = None if known is None else {c: Token("p_%s" % c) if S.sym else _prop(S, "p_%s" % c) for c in known}
    if not S.sym:
        cls = S.choice("smoothers", [cs.SmootherChoiceWeightedMean, cs.SmootherChoiceGroupBy])
    mine = one.PolynomialSmoother(k=2)
    groups = [g for g, _, _ in picked]
    before = list(groups)
    asked = []
    if S.sym:  # the choice itself is under contract above; here the same smoother for everybody

        class Chosen(cs.SmootherChoice):
            def choice_fct(self, group, prop, typ=None):
                asked.append((group, prop, typ))
                return mine

        choice = Chosen()
        choice.template = mine
    else:
        choice = cls(explicit_smoothers={("y",): mine}) if S.choice("explicit", [False, True]) else cls()
    fl = ft.create_features(groups, props, choice)
    S.ensure("groups given are unchanged", groups == before)
    fs = list(fl)
    S.ensure("one feature per group", len(fs) == n and len(fl) == n)
    if len(fs) != n:
        return
    S.ensure("group list", fl.feature_groups == [c for _, c, _ in picked])
    S.ensure("identifier list", [tuple(i) for i in fl.feature_ids] == [(c, t) for _, c, t in picked])
    for f, (g, cols, typ) in zip(fs, picked):
        S.ensure("columns in order", f.feature_group == cols and f.dim == len(cols) and f.is_1dim == (len(cols) == 1))
        S.ensure("type", f.feature_type == typ)
        S.ensure("identifier", tuple(f.feature_id) == (cols, typ))
        S.ensure("one property per column", isinstance(f.feature_property, tuple) and len(f.feature_property) == len(cols))
        for c, p in zip(cols, f.feature_property):
            want = props[c] if props is not None and c in props else F.HAS_MISSING
            S.ensure("property of its column", p is want or p == want)
        if S.sym:
            S.ensure("smoother chosen for its group, property and type", any(g == cols and len(pp) == len(cols) and all(a is b for a, b in zip(pp, f.feature_property)) and t == typ for g, pp, t in asked))
        tmpl = choice.choice_fct(cols, f.feature_property, typ)
        S.ensure("smoother of the documented kind", _shape(f.smoother) == _shape(tmpl))
        S.ensure("found by identifier", fl[f.feature_id] is f and fl.get_feature(cols, typ) is f)
        if typ is None:
            S.ensure("found by group", fl[cols] is f and fl.get_feature(cols) is f)
            if len(cols) == 1:
                S.ensure("found by name", fl[cols[0]] is f and fl.get_feature(cols[0]) is f)
    for missing in ["nope", ("x", "nope"), ("y", "x", "x"), ID(("x",), "other"), ("x", "y", 0), 7]:
        exc, _ = S.call(fl.__getitem__, missing)
        S.ensure("unknown feature is an error", isinstance(exc, KeyError))
    for g, cols, typ in shapes:
        if (cols, typ) not in [(c, t) for _, c, t in picked]:
            exc, _ = S.call(fl.__getitem__, ID(cols, typ))
            S.ensure("feature not in the list is an error", isinstance(exc, KeyError))
    parts = [_parts([f.smoother, f.smootherb]) for f in fs]
    own = _parts([choice])
    for k, a in enumerate(parts):
        S.ensure("smoother shares nothing with the smoother choice", not set(a) & set(own))
        for b in parts[k + 1 :]:
            S.ensure("features share no smoother state", not set(a) & set(b))


def _shape(sm):
    if not hasattr(sm, "get_params"):
        return sm
    return (type(sm), sorted((k, repr(_shape(v))) for k, v in sm.get_params(deep=False).items()))


@contract("P26", ["utils.clone"], trials=60)
def clones(S):
    """a clone has equal parameters, shares no parts and no learned state"""
    one, md, sg, ut = S.mod("smoothing").onedim, S.mod("smoothing").multidim, S.mod("smoothing"), S.mod("utils")
    ms = S.mod("smoothing.meta_smoother")
    v = S.real("v", 0, 10)
    sub = S.choice("sub", [one.WeightedMeanSmoother(prior_prediction=v), one.OrthogonalPolynomialSmoother(), one.PolynomialSmoother(k=2), one.IsotonicRegressor(increasing=False), one.SeasonalSmoother(order=2), sg.extrapolate.LinearExtrapolator()])
    top = S.choice("top", [lambda s: s, ms.NormalizationSmoother, lambda s: ms.RegressionTypeSmoother(s, ms.RegressionType.interpolating), lambda s: md.GroupBySmootherCB(ms.NormalizationSmoother(s), n_dim=2)])(sub)
    top.learned_ = [1, 2, 3]
    sub.learned_ = [1]
    k = ut.clone(top)
    S.ensure("same class", type(k) is type(top))
    S.ensure("no learned state", not hasattr(k, "learned_"))
    mine, other = _parts([k]), _parts([top])
    S.ensure("no shared parts", not set(mine) & set(other))
    a, b = top, k
    while a is not None and b is not None:
        pa, pb = a.get_params(deep=False), b.get_params(deep=False)
        S.ensure("same parameters", set(pa) == set(pb))
        nxt = None, None
        for key in pa:
            if hasattr(pa[key], "get_params"):
                S.ensure("same kind of sub-smoother", type(pa[key]) is type(pb[key]))
                nxt = pa[key], pb[key]
            else:
                S.ensure("same parameter value", pa[key] == pb[key])
        a, b = nxt
        if b is not None:
            S.ensure("sub-smoother has not learned", not hasattr(b, "learned_"))
