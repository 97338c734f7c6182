"""The pipeline factory hands every setting to the estimator and the binner.

A setting's value is an opaque token (any operation on it but identity is refused) or a symbolic
number, so one run with a token stands for every value that is not None.
"""
from ..core import Unsupported
from ..spec import bounded, contract

COMMON = ["feature_groups", "feature_properties", "weight_column", "prior_prediction_column", "minimal_loss_change", "minimal_factor_change", "maximal_iterations", "observers", "smoother_choice", "output_column", "learn_rate"]
HIER = ["hierarchical_feature_groups", "aggregate"]
PRICE = ["external_colname", "standard_feature_groups", "external_feature_groups", "var_prior_exponent", "prior_exponent_colname", "a", "c"]
KNOWS = {
    "CBPoissonRegressor": COMMON + HIER,
    "CBLocPoissonRegressor": COMMON + HIER,
    "CBLocationRegressor": COMMON + HIER,
    "CBClassifier": COMMON + HIER,
    "CBNBinomRegressor": COMMON + HIER + ["a", "c"],
    "CBExponential": [k for k in COMMON if k != "feature_groups"] + PRICE,
    "CBNBinomC": COMMON + ["mean_prediction_column", "gamma", "bayes", "n_steps"],
    "CBGBSRegressor": [k for k in COMMON if k != "prior_prediction_column"] + HIER + ["regalpha"],
    "CBMultiplicativeQuantileRegressor": COMMON + HIER + ["quantile"],
    "CBAdditiveQuantileRegressor": COMMON + HIER + ["quantile"],
    "CBMultiplicativeGenericCRegressor": COMMON + HIER + ["costs"],
    "CBAdditiveGenericCRegressor": COMMON + HIER + ["costs"],
    "CBGenericClassifier": COMMON + HIER + ["costs"],
}
BINNER = {"number_of_bins": "n_bins", "feature_properties": "feature_properties", "weight_column": "weight_column", "inplace": "inplace"}
DEFAULTS = dict(
    feature_groups=None, hierarchical_feature_groups=None, feature_properties=None, weight_column=None, prior_prediction_column=None,
    minimal_loss_change=1e-3, minimal_factor_change=1e-3, maximal_iterations=10, output_column=None, aggregate=True, a=1.0, c=0.0,
    external_colname=None, var_prior_exponent=0.1, prior_exponent_colname=None, mean_prediction_column=None, gamma=0.0, bayes=False,
    n_steps=15, regalpha=0.0, costs=None, number_of_bins=100, inplace=False,
)  # fmt: skip
NEEDED = {"CBExponential": ["standard_feature_groups", "external_feature_groups"], "CBMultiplicativeQuantileRegressor": ["quantile"], "CBAdditiveQuantileRegressor": ["quantile"]}


def _no(self, *a, **k):
    raise Unsupported("the value of a setting is inspected")


class Token:
    """a value of which nothing is known except that it is itself"""

    def __init__(self, name):
        object.__setattr__(self, "name", name)

    def __repr__(self):
        return "<%s>" % self.name

    __bool__ = __eq__ = __ne__ = __hash__ = __lt__ = __le__ = __gt__ = __ge__ = __len__ = __iter__ = __getitem__ = __contains__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = __float__ = __int__ = __index__ = __call__ = _no

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("attribute %s of a setting" % name)


STRUCT = ("feature_groups", "hierarchical_feature_groups", "standard_feature_groups", "external_feature_groups", "feature_properties", "smoother_choice", "learn_rate", "costs", "observers")


def _value(S, key):
    """an arbitrary value the setting may have"""
    fl = S.mod("flags")
    if key == "feature_groups":
        return S.choice("feature_groups", [["a", ("a", "b")], ["b"], [("b", "a"), "c"]])
    if key == "hierarchical_feature_groups":
        return [("a",)]
    if key == "standard_feature_groups":
        return S.choice("standard_groups", [["a", ("a", "b")], ["b"]])
    if key == "external_feature_groups":
        return S.choice("external_groups", [["c"], [("b", "c"), "c"]])
    if key == "feature_properties":
        return {"a": fl.IS_UNORDERED, "b": fl.IS_CONTINUOUS, "c": fl.IS_ORDERED}
    if key == "smoother_choice":
        return S.mod("common_smoothers").SmootherChoiceGroupBy(use_normalization=False)
    if key == "learn_rate":
        return lambda iteration, max_iter, feature=None: 0.123
    if key == "costs":
        return lambda prediction, y, weights: 0.0
    if key == "observers":
        return [object()]
    if key == "quantile":
        return S.real("quantile", 0, 1, lo_open=True, hi_open=True)
    if key in ("aggregate", "bayes", "inplace"):
        return not DEFAULTS[key]
    if not S.sym:
        if key in ("maximal_iterations", "number_of_bins", "n_steps"):
            return S.choice(key, [2, 3, 7, 50, 499])
        if key in ("weight_column", "prior_prediction_column", "output_column", "external_colname", "prior_exponent_colname", "mean_prediction_column"):
            return S.choice(key, ["a", "W", "x y", "", "0", 0, 1, 3])
        return S.choice(key, [0.0, 1e-9, 0.37, 2.5])
    return Token(key)


def _same(a, b):
    return a is b or (not isinstance(a, Token) and not isinstance(b, Token) and type(a) is type(b) and a == b)


def _cases(settings):
    """subsets of the settings that are given: all, none, each one alone, each one missing"""
    return [list(settings), []] + [[k] for k in settings] + [[k for k in settings if k != m] for m in settings]


def _factory(name):
    knows = KNOWS[name]
    settings = list(dict.fromkeys(knows + list(BINNER)))
    cases = _cases(settings)
    cls_mod = {"CBNBinomC": "nbinom", "CBNBinomRegressor": "regression", "CBPoissonRegressor": "regression", "CBExponential": "price", "CBLocPoissonRegressor": "location", "CBLocationRegressor": "location", "CBClassifier": "classification", "CBGBSRegressor": "GBSregression"}.get(name, "generic_loss")

    def f(S):
        pl = S.mod("pipelines")
        via = S.choice("wrapper", [False, True])
        if S.sym:
            given = S.choice("given", cases)
        else:
            given = S.choice("given", cases + [None])
            if given is None or S.choice("subset", [True, False]):
                given = [k for k in settings if S.choice("given_" + k, [True, False])]
        given = list(given) + [k for k in NEEDED.get(name, []) if k not in given]
        vals = {k: _value(S, k) for k in given}
        cls = getattr(pl, name)
        if via:
            exc, p = S.call(getattr(pl, "pipeline_" + name), **vals)
        else:
            exc, p = S.call(pl.pipeline_CB, cls, **vals)
        S.ensure("built", exc is None)
        if exc is not None:
            return
        S.ensure("binning comes first, then the estimator", [type(s).__name__ for _, s in p.steps] == ["BinNumberTransformer", name] and type(p.steps[1][1]) is cls)
        b, e = p.steps[0][1], p.steps[1][1]
        params = e.get_params(deep=False)
        for k in settings:
            v = vals.get(k, DEFAULTS.get(k))
            if k in BINNER:
                S.ensure("binner: %s" % k, _same(getattr(b, BINNER[k]), v))
            if k not in knows or (k == "learn_rate" and vals.get("hierarchical_feature_groups") is not None):
                continue
            if k in ("observers", "smoother_choice", "learn_rate") and k not in vals:
                if k == "observers":
                    S.ensure("estimator: no observers by default", len(e.observers) == 0)
                elif k == "smoother_choice":
                    S.ensure("estimator: default smoother choice", type(e.smoother_choice).__name__ == "SmootherChoiceWeightedMean")
                else:
                    S.ensure("estimator: default learning rate", e.learn_rate is S.mod("learning_rate").half_linear_learn_rate)
                continue
            S.ensure("estimator: %s" % k, _same(getattr(e, k), v))
            S.ensure("estimator parameter: %s" % k, k in params and _same(params[k], v))
        if name == "CBExponential":
            tup = lambda g: (g,) if isinstance(g, str) else tuple(g)
            got = [(tuple(g.feature_group), g.feature_type) for g in e.feature_groups]
            ext = S.mod("features").FeatureTypes.external
            S.ensure("price model: standard groups", [g for g, t in got if t != ext] == [tup(g) for g in vals["standard_feature_groups"]])
            S.ensure("price model: external groups", [g for g, t in got if t == ext] == [tup(g) for g in vals["external_feature_groups"]])
        if "quantile" in knows and "quantile" in vals:
            S.ensure("quantile", e.quantile is vals["quantile"] or S.eq(e.quantile, vals["quantile"], 0, 0))

    f.__name__ = "settings_" + name
    return contract("P19", ["pipelines.pipeline_CB", "pipelines.pipeline_%s" % name, "%s.%s.__init__" % (cls_mod, name), "base.CyclicBoostingBase.__init__", "binning.bin_number_transformer.BinNumberTransformer.__init__"], trials=60, max_paths=1000)(f)


for _n in KNOWS:
    _factory(_n)


@contract("P19", ["pipelines.pipeline_CB"], trials=30)
def unsupported(S):
    """anything that is not one of the supported estimator classes is rejected"""
    pl = S.mod("pipelines")

    class Other:
        def __init__(self, *a, **k):
            pass

    est = S.choice("kind", [None, Other, object(), "CBPoissonRegressor", S.mod("base").CyclicBoostingBase, int])
    exc, p = S.call(pl.pipeline_CB, est, feature_groups=["a"])
    S.ensure("rejected", exc is not None)
