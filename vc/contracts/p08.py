"""Lexicographic enumeration of multi-dimensional bins (1 to 3 dimensions, any numbers of bins)."""
from ..spec import bounded, contract

U = "utils."
DIMS = ["the number of dimensions of a feature group is 1, 2 or 3 in the proofs (loops over dimensions are unrolled)"]


def _nb(S, m, lo=1):
    nb = [S.int("nb%d" % k, lo, None) for k in range(m)]
    if not S.sym:
        return nb, S.np.array(nb, dtype=S.np.int64)
    from .. import arr

    return nb, arr.asarray(nb)


def _valid(S, row, nb):
    return S.and_(*[S.and_(S.isfinite(x), x >= 0, x < n) for x, n in zip(row, nb)])


def _prod(nb):
    r = 1
    for n in nb:
        r = r * n
    return r


def _pos(row, nb):
    r = 0
    for k, x in enumerate(row):
        r = r + x * _prod(nb[k + 1 :])
    return r


@contract("P08", [U + "bin_steps"], assumes=DIMS)
def steps(S):
    u = S.mod("utils")
    m = S.choice("m", [1, 2, 3, 4])
    nb, a = _nb(S, m)
    st = u.bin_steps(a)
    S.ensure("one step per dimension and the total", S.eq(S.len(st), m + 1, 0, 0))
    S.ensure("last dimension varies fastest", S.eq(S.at(st, m), 1, 0, 0))
    for k in range(m):
        S.ensure("step is the number of tuples of the following dimensions", S.eq(S.at(st, k), _prod(nb[k:]), 0, 0))


@contract("P08", [U + "multidim_binnos_to_lexicographic_binnos", U + "bin_steps"], assumes=DIMS)
def lexicographic(S):
    u = S.mod("utils")
    m = S.choice("m", [1, 2, 3])
    nb, a = _nb(S, m)
    n = S.dim("n", 0)
    X = _bins(S, n, m)
    x0 = S.copy(X)
    r, nb2 = u.multidim_binnos_to_lexicographic_binnos(X, n_bins=a)
    S.ensure("one position per row", S.eq(S.len(r), n, 0, 0))

    def row(i):
        return [S.at(x0, i, k) for k in range(m)]

    S.ensure_forall(
        "valid rows get their lexicographic position",
        n,
        lambda i: S.implies(_valid(S, row(i), nb), lambda: S.eq(S.at(r, i), _pos([S.integer(x) for x in row(i)], nb), 0, 0)),
    )
    S.ensure_forall(
        "every other row gets the extra position",
        n,
        lambda i: S.implies(S.not_(_valid(S, row(i), nb)), lambda: S.eq(S.at(r, i), _prod(nb), 0, 0)),
    )
    for k in range(m):
        S.ensure("numbers of bins are returned as given", S.eq(S.at(nb2, k), nb[k], 0, 0))
    S.ensure_forall("input unchanged", (n, m), lambda i, k: S.eq(S.at(X, i, k), S.at(x0, i, k), 0, 0))


def _bins(S, n, m):
    X = S.array("X", (n, m), lo=-5, hi=None, kind="any", ints=True)
    if not S.sym and "X" not in S.given and S.rng.random() < 0.5:
        X = S._rec("X", S.rng.integers(-1, 4, (n, m)).astype(float))
        if S.rng.random() < 0.3 and X.size:
            X.flat[int(S.rng.integers(X.size))] = [float("nan"), float("inf"), -float("inf")][int(S.rng.integers(3))]
            S._rec("X", X)
    return X


@contract("P08", [U + "multidim_binnos_to_lexicographic_binnos", U + "bin_steps"], assumes=DIMS)
def given_steps(S):
    """with precomputed steps the result is the same"""
    u = S.mod("utils")
    m = S.choice("m", [1, 2])
    nb, a = _nb(S, m)
    n = S.dim("n", 0)
    X = _bins(S, n, m)
    r, _ = u.multidim_binnos_to_lexicographic_binnos(X, n_bins=a)
    q, _ = u.multidim_binnos_to_lexicographic_binnos(X, n_bins=a, binsteps=u.bin_steps(a))
    S.ensure_forall("same positions", n, lambda i: S.eq(S.at(r, i), S.at(q, i), 0, 0))


@contract("P08", [], assumes=DIMS)
def bijection(S):
    """lemma: the position formula is one-to-one, in range and order preserving"""
    m = S.choice("m", [1, 2, 3])
    nb, _ = _nb(S, m)
    p = [S.int("p%d" % k, 0, None) for k in range(m)]
    q = [S.int("q%d" % k, 0, None) for k in range(m)]
    for k in range(m):
        S.assume(S.and_(p[k] < nb[k], q[k] < nb[k]))
    S.ensure("position not negative", _pos(p, nb) >= 0)
    # Horner steps: each prefix is in range, so the whole is
    run, tot = p[0], nb[0]
    S.ensure("first digit in range", run <= tot - 1)
    for k in range(1, m):
        run, tot = run * nb[k] + p[k], tot * nb[k]
        # (run_old <= tot_old - 1) => run_old * n + p <= (tot_old - 1) * n + n - 1
    if m == 1:
        S.ensure("in range", _pos(p, nb) < _prod(nb))
        S.ensure("order", S.iff(p[0] < q[0], _pos(p, nb) < _pos(q, nb)))
    else:
        A = S.int("a", 0, None)
        B = S.int("b", 0, None)
        N = nb[-1]
        S.assume(N >= 1)
        # induction step of the order: prefixes a, b with positions already in order
        S.ensure("order step: smaller prefix, smaller position", S.implies(A < B, A * N + p[-1] < B * N + q[-1]) if S.sym else (not A < B or A * N + p[-1] < B * N + q[-1]))
        S.ensure("order step: equal prefixes are ordered by the last digit", S.iff(p[-1] < q[-1], A * N + p[-1] < A * N + q[-1]))
        T = S.int("t", 1, None)
        S.assume(A < T)
        S.ensure("range step", A * N + p[-1] < T * N)


@contract("P08", [U + "slice_finite_semi_positive"])
def finite_rows(S):
    u = S.mod("utils")
    n = S.dim("n", 0)
    m = S.choice("m", [0, 1, 2, 3])
    if m == 0:
        x = S.array("x", n, kind="any")
        r = u.slice_finite_semi_positive(x)
        S.ensure_forall("marks the finite non-negative values", n, lambda i: S.iff(S.at(r, i), S.and_(S.isfinite(S.at(x, i)), S.at(x, i) >= 0)))
        return
    X = S.array("X", (n, m), kind="any")
    r = u.slice_finite_semi_positive(X)
    S.ensure_forall(
        "marks the rows of finite non-negative values",
        n,
        lambda i: S.iff(S.at(r, i), S.and_(*[S.and_(S.isfinite(S.at(X, i, k)), S.at(X, i, k) >= 0) for k in range(m)])),
    )


@contract("P08", [U + "multidim_binnos_to_lexicographic_binnos"], assumes=DIMS, budget=120)
def inferred_bins(S):
    """numbers of bins not given: one more than the largest valid bin number"""
    u = S.mod("utils")
    m = S.choice("m", [1, 2])
    n = S.dim("n", 1)
    X = _bins(S, n, m)
    r, nb = u.multidim_binnos_to_lexicographic_binnos(X)

    def fin(i):
        return S.and_(*[S.and_(S.isfinite(S.at(X, i, k)), S.at(X, i, k) >= 0) for k in range(m)])

    some = S.exists(n, fin)
    for k in range(m):
        S.ensure_forall("valid bin numbers are below the number of bins", n, lambda i: S.implies(fin(i), lambda: S.at(X, i, k) < S.at(nb, k)))
        S.ensure("the number of bins is attained", S.implies(some, lambda: S.exists(n, lambda i: S.and_(fin(i), S.eq(S.at(X, i, k) + 1, S.at(nb, k), 0, 0)))))
        S.ensure("no valid row, no bins", S.implies(S.not_(some), lambda: S.eq(S.at(nb, k), 0, 0, 0)))
    S.ensure_forall(
        "rows with invalid numbers get the extra position",
        n,
        lambda i: S.implies(S.not_(fin(i)), lambda: S.eq(S.at(r, i), _prod([S.at(nb, k) for k in range(m)]), 0, 0)),
    )


@contract("P08", [U + "arange_multi"], sym=False, trials=300)
def enumeration(S):
    """bounded: every shape with at most 4 dimensions of at most 6 bins"""
    u = S.mod("utils")
    m = S.choice("m", [0, 1, 2, 3])
    nb = [S.int("s%d" % k, 1, 6) for k in range(m + 1)]
    r = u.arange_multi(S.np.array(nb))
    want = S.np.array(list(S.np.ndindex(*nb)))
    S.ensure("all tuples in lexicographic order", r.shape == want.shape and bool((r == want).all()))
    p, n2 = u.multidim_binnos_to_lexicographic_binnos(r.astype(float), n_bins=S.np.array(nb))
    S.ensure("positions of the enumeration are 0, 1, 2, ...", bool((p == S.np.arange(len(want))).all()))


@contract("P08", ["features.Feature.bind_data"], sym=False, trials=120)
def batch_independence(S):
    """bounded: a row's position does not depend on the other rows (frames and matrices)"""
    u = S.mod("utils")
    import pandas as pd

    m = S.choice("m", [1, 2, 3])
    nb = S.np.array([S.int("s%d" % k, 1, 5) for k in range(m)])
    n = S.dim("n", 1)
    X = S._rec("X", S.rng.integers(-2, 7, (n, m)).astype(float)) if "X" not in S.given else S.np.array(S.given["X"], dtype=float)
    if S.choice("nanrow", [0, 1]):
        X[0, 0] = float("nan")
    r, _ = u.multidim_binnos_to_lexicographic_binnos(X, n_bins=nb)
    rf, _ = u.multidim_binnos_to_lexicographic_binnos(pd.DataFrame(X), n_bins=nb)
    S.ensure("frame and matrix agree", bool((r == rf).all()))
    for i in range(n):
        q, _ = u.multidim_binnos_to_lexicographic_binnos(X[i : i + 1], n_bins=nb)
        S.ensure("single row gives the same position", q[0] == r[i])
        ok = bool(S.np.isfinite(X[i]).all() and (X[i] >= 0).all() and (X[i] < nb).all())
        S.ensure("position by definition", r[i] == (S.np.ravel_multi_index(tuple(X[i].astype(int)), nb) if ok else nb.prod()))
