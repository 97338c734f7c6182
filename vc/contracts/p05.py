"""Transformation of feature values to bin numbers."""
import numpy as np
import pandas as pd

from ..spec import bounded, contract
from . import stubs

T = "binning.bin_number_transformer."
FNS = [T + "BinNumberTransformer.transform", T + "BinNumberTransformer._transform_one_feature", T + "column_selector", T + "column_setter", T + "_as_int_array_of_minimum_dtype", "binning._binary_search.ge_multi", "binning._binary_search.eq_multi"]


def _magic(S, fl, magic, x):
    return S.or_(S.eq(x, -9, 0, 0), S.eq(x, -999, 0, 0)) if magic else False


def _setup(S, kinds, as_frame, inplace=False):
    """a fitted transformer with one column per kind, its bins and the matrix to transform"""
    fl = S.mod("flags")
    bt = S.mod("binning.bin_number_transformer")
    n = S.dim("n", 1)
    cols, props, fitted, info = {}, {}, [], []
    for k, (kind, magic) in enumerate(kinds):
        name = "f%d" % k if as_frame else k
        nb = S.dim("nb%d" % k, 1)
        x = S.array("x%d" % k, n, kind="any")
        b = S.array("b%d" % k, nb + 1, order="nondec" if kind == "cont" else None)
        if kind in DISC:
            d = S.array("d%d" % k, nb, order="strict")
            b = d
        if not S.sym and "x%d" % k not in S.given:
            pool = np.concatenate([np.asarray(b, float), np.asarray(b, float) + 0.25, [-9.0, -999.0, np.nan, np.inf, -np.inf]])
            m = S.rng.random(n) < 0.6
            x = S._rec("x%d" % k, np.where(m, S.rng.choice(pool, n), x))
        eps = S.real("eps%d" % k, 0, 1e-6, lo_open=True)
        p = fl.IS_CONTINUOUS if kind == "cont" else (fl.IS_ORDERED if kind == "disc" else fl.IS_UNORDERED)
        props[name] = p | (fl.HAS_MAGIC_INT_MISSING if magic else 0)
        cols[name] = x
        if kind == "none":
            props[name] = fl.IS_CONTINUOUS
            mat = None
        elif kind in DISC:
            mat = S.np.zeros((nb + 1, 2))
            mat[1:, 0] = b
            mat[0, 0] = b[0]
        else:
            mat = S.np.zeros((nb + 1, 2))
            mat[:, 0] = b
        fitted.append((name, eps, mat))
        info.append((kind, magic, name, x, b, nb, eps))
    t = bt.BinNumberTransformer(feature_properties=props, inplace=inplace)
    t.bins_and_cdfs_ = fitted
    return t, n, cols, info


def _check(S, n, info, out):
    """out(name) -> column of bin numbers"""
    for kind, magic, name, x, b, nb, eps in info:
        r = out(name)

        def missing(i):
            v = S.at(x, i)
            return S.or_(S.not_(S.isfinite(v)), _magic(S, None, magic, v))

        S.ensure_forall("missing values get -1", n, lambda i: S.implies(missing(i), lambda: S.eq(S.at(r, i), -1, 0, 0)))
        if kind == "none":
            S.ensure_forall("a column without any valid training value is missing", n, lambda i: S.eq(S.at(r, i), -1, 0, 0))
            continue
        if kind == "cont":
            S.ensure_forall(
                "bin number in range",
                n,
                lambda i: S.implies(S.not_(missing(i)), lambda: S.and_(S.at(r, i) >= 0, S.at(r, i) <= nb - 1)),
            )
            S.ensure_forall(
                "first bin whose upper boundary is not below the value",
                n,
                lambda i: S.implies(
                    S.and_(S.not_(missing(i)), S.at(r, i) >= 0, S.at(r, i) < nb - 1), lambda: S.at(b, S.integer(S.at(r, i)) + 1) >= S.at(x, i) - eps
                ),
            )
            S.ensure_forall(
                "all boundaries before are below the value",
                (n, nb),
                lambda i, j: S.implies(S.and_(S.not_(missing(i)), j < S.at(r, i)), lambda: S.at(b, j + 1) < S.at(x, i)),
            )
        else:
            S.ensure_forall(
                "-1 or a known value",
                n,
                lambda i: S.implies(
                    S.not_(missing(i)),
                    lambda: S.or_(
                        S.eq(S.at(r, i), -1, 0, 0),
                        S.and_(S.at(r, i) >= 0, S.at(r, i) <= nb - 1, S.implies(S.and_(S.at(r, i) >= 0, S.at(r, i) <= nb - 1), lambda: S.abs(S.at(b, S.integer(S.at(r, i))) - S.at(x, i)) <= eps)),
                    ),
                ),
            )
            S.ensure_forall(
                "a known value gets its own index",
                (n, nb),
                lambda i, j: S.implies(S.and_(S.not_(missing(i)), S.eq(S.at(b, j), S.at(x, i), 0, 0)), lambda: S.eq(S.at(r, i), j, 0, 0)),
            )


def _sep(S, info):
    """known values of a discrete feature are more than two epsilons apart (epsilon is 1e-9 times the smallest gap)"""
    for kind, magic, name, x, b, nb, eps in info:
        if kind in DISC:
            S.assume_forall(nb - 1, lambda j, b=b, eps=eps: S.at(b, j + 1) - S.at(b, j) > 2 * eps)
            if S.sym:
                S.c.pairwise = getattr(S.c, "pairwise", [])
                _gap_pairs(S, b, nb, eps)


def _gap_pairs(S, b, nb, eps):
    """consequence of the consecutive gaps for all pairs (sorted values)"""
    from .. import arr
    from ..core import z3, zb, as_real

    c = S.c
    n = arr.zi(arr.ix(nb))
    e = as_real(eps).v

    def u(t):
        for s in list(c.terms):
            if s.eq(t):
                continue
            for x, y in ((s, t), (t, s)):
                hy, c.hyps = c.hyps, []
                try:
                    c.add(S.at(b, arr.dimval(y)).v - S.at(b, arr.dimval(x)).v > 2 * e, z3.And(x >= 0, x < y, y < n))
                finally:
                    c.hyps = hy

    c.universal(u)


DISC = ("disc", "unord")
ASM = ["known values of a discrete feature are more than two comparison tolerances apart (the fitted tolerance is 1e-9 of the smallest gap)"]


def _run(S, kinds, as_frame, inplace=False):
    stubs.use_le(S)
    stubs.use_ge(S)
    stubs.use_min_int(S)
    t, n, cols, info = _setup(S, kinds, as_frame, inplace)
    _sep(S, info)
    if as_frame:
        X = S.frame(cols)
        r = t.transform(X)
        _check(S, n, info, lambda c: S.values(r[c]))
    else:
        X = S.np.zeros((n, len(kinds)))
        for k in range(len(kinds)):
            X[:, k] = cols[k]
        r = t.transform(X)
        _check(S, n, info, lambda c: r[:, c])
    return t, n, cols, info, X, r


@contract("P05", FNS)
def continuous_frame(S):
    _run(S, [("cont", False)], True)


@contract("P05", FNS)
def continuous_magic_frame(S):
    _run(S, [("cont", True)], True)


@contract("P05", FNS, assumes=ASM)
def ordered_frame(S):
    _run(S, [("disc", False)], True)


@contract("P05", FNS, assumes=ASM)
def ordered_magic_frame(S):
    _run(S, [("disc", True)], True)


@contract("P05", FNS, assumes=ASM)
def unordered_frame(S):
    _run(S, [("unord", False)], True)


@contract("P05", FNS)
def continuous_matrix(S):
    _run(S, [("cont", S.choice("magic", [False, True]))], False)


@contract("P05", FNS, assumes=ASM)
def discrete_matrix(S):
    _run(S, [("disc", False)], False)


@contract("P05", FNS)
def unknown_column(S):
    """a column without any valid value when fitting is missing everywhere"""
    _run(S, [("none", False)], S.choice("frame", [True, False]))


@contract("P05", FNS, sym=False, assumes=ASM)
def several_columns(S):
    k = S.choice("kinds", [0, 1, 2])
    _run(S, [[("cont", False), ("disc", False)], [("unord", True), ("none", False)], [("none", False), ("cont", True)]][k], S.choice("frame", [True, False]), S.choice("inplace", [False, True]))


@contract("P05", [T + "BinNumberTransformer.transform", T + "column_setter"])
def columns_apart(S):
    """every fitted column is replaced by its own bin numbers, the others and the order of the columns stay"""
    bt = S.mod("binning.bin_number_transformer")
    fl = S.mod("flags")
    stubs.use_min_int(S)
    n = S.dim("n", 1)
    as_frame = S.choice("frame", [True, False])
    inplace = S.choice("inplace", [False, True])
    names = ["c", "a", "b"] if as_frame else [0, 1, 2]
    cols = {k: S.array("x%d" % j, n) for j, k in enumerate(names)}
    fitted = S.choice("fitted", [0, 1, 2, 3])
    fnames = [[names[0], names[1], names[2]], [names[2], names[0]], [names[1]], [names[1], names[2]]][fitted]
    binno = {k: S.array("b%d" % names.index(k), n, ints=True, lo=-1, hi=120) for k in fnames}
    t = bt.BinNumberTransformer(feature_properties={k: fl.IS_CONTINUOUS for k in fnames}, inplace=inplace)
    t.bins_and_cdfs_ = [(k, 1e-9, S.np.zeros((3, 2))) for k in fnames]
    seen = {}

    def one(X, prop, col, eps, bc):
        seen[col] = S.copy(S.values(X[col]) if as_frame else X[:, col])
        return S.copy(binno[col])

    S.stub(t, "_transform_one_feature", one)
    if as_frame:
        X = S.frame({k: S.copy(v) for k, v in cols.items()})
    else:
        X = S.np.zeros((n, 3))
        for k in names:
            X[:, k] = cols[k]
    r = t.transform(X)
    get = (lambda k: S.values(r[k])) if as_frame else (lambda k: r[:, k])
    if as_frame:
        S.ensure("same columns in the same order", list(r.columns) == names)
    for k in names:
        if k in binno:
            S.ensure_forall("own bin numbers", n, lambda i: S.eq(S.at(get(k), i), S.at(binno[k], i), 0, 0))
            if k in seen:
                S.ensure_forall("computed from its own values", n, lambda i: S.eq(S.at(seen[k], i), S.at(cols[k], i), 0, 0))
        else:
            S.ensure_forall("other columns stay", n, lambda i: S.eq(S.at(get(k), i), S.at(cols[k], i), 0, 0))


@contract("P05", [T + "BinNumberTransformer.transform"])
def monotone(S):
    """bin numbers never decrease with the value"""
    stubs.use_ge(S)
    stubs.use_min_int(S)
    t, n, cols, info = _setup(S, [("cont", False)], True)
    r = t.transform(S.frame(cols))
    x = cols["f0"]
    S.ensure_forall(
        "a larger value never gets a smaller bin number",
        (n, n),
        lambda i, j: S.implies(S.and_(S.isfinite(S.at(x, i)), S.isfinite(S.at(x, j)), S.at(x, i) <= S.at(x, j)), lambda: S.at(S.values(r["f0"]), i) <= S.at(S.values(r["f0"]), j)),
    )


@bounded("P05", FNS + ["binning.ecdf_transformer.ECdfTransformer.fit"], trials=150)
def fitted(S):
    """bounded: fit and transform through the public interface; every row alone gives the same bin"""
    fl = S.mod("flags")
    B = S.mod("binning").BinNumberTransformer
    n = S.dim("n", 2, small=25)
    rng = S.rng
    kind = S.choice("kind", [0, 1, 2])
    prop = [fl.IS_CONTINUOUS, fl.IS_ORDERED, fl.IS_UNORDERED][kind] | S.choice("fl", [0, fl.HAS_MISSING, fl.HAS_MAGIC_INT_MISSING])
    base = rng.integers(-3, 8, n).astype(float) if rng.random() < 0.5 else np.round(rng.normal(0, 10, n), 2)
    x = S.given.get("x")
    x = np.array(x, float) if x is not None else base
    if "x" not in S.given and rng.random() < 0.6:
        x[rng.random(n) < 0.2] = np.nan
    S._rec("x", x)
    nbins = S.int("n_bins", 2, 12)
    y = S.given.get("y")
    y = np.array(y, float) if y is not None else np.concatenate([x, x + 0.3, rng.normal(0, 30, 4), [np.nan, np.inf, -np.inf, -9.0, -999.0, 1e9, -1e9]])
    S._rec("y", y)
    as_frame = S.choice("frame", [True, False])
    mk = (lambda v: pd.DataFrame({"a": v, "other": np.arange(len(v)) * 1.0})) if as_frame else (lambda v: np.column_stack([v, np.arange(len(v)) * 1.0]))
    col = "a" if as_frame else 0
    t = B(n_bins=nbins, feature_properties={col: prop})
    t.fit(mk(x))
    get = (lambda f: f["a"].values) if as_frame else (lambda f: f[:, 0])
    X = mk(y)
    r = np.asarray(get(t.transform(X)), float)
    (_, eps, bc) = t.bins_and_cdfs_[0]
    if bc is None:
        S.ensure("nothing known", bool((r == -1).all()))
        return
    k = len(bc) - 1
    magic = bool(prop & (fl.HAS_MAGIC_INT_MISSING & ~fl.HAS_MISSING))
    for v, b in zip(y, r):
        miss = not np.isfinite(v) or (magic and v in (-9, -999))
        if miss:
            S.ensure("missing", b == -1)
        elif kind == 0:
            want = min(int(np.sum(bc[1:, 0] < v - 2 * eps)), k - 1), min(int(np.sum(bc[1:, 0] < v)), k - 1)
            S.ensure("bin of %r" % v, want[0] <= b <= want[1])
        else:
            known = np.unique(x[np.isfinite(x)])
            w = np.where(np.abs(known - v) <= 2 * eps)[0]
            S.ensure("index of %r" % v, b == (w[0] if len(w) else -1))
    for i in rng.integers(0, len(y), 4):
        one = np.asarray(get(t.transform(mk(y[i : i + 1]))), float)[0]
        S.ensure("independent of the other values", one == r[i])


@contract("P05", [T + "_as_int_array_of_minimum_dtype"])
def smallest_dtype(S):
    """the integer type chosen for a column of bin numbers holds every one of them"""
    bt = S.mod("binning.bin_number_transformer")
    n = S.dim("n", 0)
    a = S.array("a", n, ints=True, lo=-1, hi=10**9)
    if not S.sym and "a" not in S.given:
        a = S._rec("a", np.floor(S.rng.random(n) * S.rng.choice([3, 127, 129, 130, 40000, 1e6])) - 1 + S.rng.choice([0, 126, 32766]) * (S.rng.random(n) < 0.5))
    r = bt._as_int_array_of_minimum_dtype(a)
    hi = np.iinfo(r.dtype).max
    S.ensure("integer type", np.dtype(r.dtype).kind == "i")
    S.ensure_forall("same number", n, lambda i: S.and_(S.eq(S.at(r, i), S.at(a, i), 0, 0), S.at(a, i) <= hi))


@contract("P05", [T + "_as_int_array_of_minimum_dtype"])
def smallest_dtype_matrix(S):
    bt = S.mod("binning.bin_number_transformer")
    n = S.dim("n", 1)
    m = S.choice("m", [1, 2])
    a = S.array("a", (n, m), ints=True, lo=-1, hi=10**9)
    if not S.sym and "a" not in S.given:
        a = S._rec("a", np.floor(S.rng.random((n, m)) * S.rng.choice([3, 127, 129, 130, 40000, 1e6])) - 1 + S.rng.choice([0, 126, 32766]) * (S.rng.random((n, m)) < 0.5))
    r = bt._as_int_array_of_minimum_dtype(a)
    hi = np.iinfo(r.dtype).max
    S.ensure_forall("same number", (n, m), lambda i, j: S.and_(S.eq(S.at(r, i, j), S.at(a, i, j), 0, 0), S.at(a, i, j) <= hi))
