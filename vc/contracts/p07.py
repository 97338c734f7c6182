"""Binary searches."""
from ..spec import contract
from . import stubs

FN = "binning._binary_search."


def _mod(S):
    return S.mod("binning._binary_search")


def le_post(S, z, n, x, inclusive, r):
    """r: position of the last element <= x; a missing value has no position, only the range is stated for it"""
    lo = 0 if inclusive else -1
    S.ensure("le: in range", S.and_(r >= lo, S.or_(r < n, r == lo)))
    S.ensure_forall("le: everything after is above the value", n, lambda i: S.implies(i > r, lambda: S.not_(S.at(z, i) <= x)))
    S.ensure("le: the element found is not above the value", S.implies(S.and_(S.not_(S.isnan(x)), r >= 0, r < n, r > lo), lambda: S.at(z, r) <= x))


def ge_post(S, z, n, x, inclusive, r, lo=0):
    hi = n - 1 if inclusive else n
    S.ensure("ge: in range", S.and_(r <= hi, S.or_(r >= lo, r == hi)))
    S.ensure_forall("ge: everything before is below the value", n, lambda i: S.implies(S.and_(i >= lo, i < r), lambda: S.not_(S.at(z, i) >= x)))
    S.ensure("ge: the element found is not below the value", S.implies(S.and_(S.not_(S.isnan(x)), r >= lo, r < hi), lambda: S.at(z, r) >= x))


def _sorted(S, n, name="z", order="nondec"):
    return S.array(name, n, order=order)


def _x(S, z, n):
    """a searched value, in concrete runs often an element"""
    x = S.real("x", kind="any")
    if not S.sym and n > 0 and S.rng.random() < 0.5 and "x" not in S.given:
        x = S._rec("x", float(z[int(S.rng.integers(0, n))]))
    return x


@contract("P07", [FN + "le"])
def le(S):
    m = _mod(S)
    n = S.dim("n", 0)
    z = _sorted(S, n)
    x = _x(S, z, n)
    inc = S.choice("inclusive", [0, 1])
    le_post(S, z, n, x, inc, m.le(z, x, inc))


@contract("P07", [FN + "ge"])
def ge(S):
    m = _mod(S)
    n = S.dim("n", 0)
    z = _sorted(S, n)
    x = _x(S, z, n)
    inc = S.choice("inclusive", [0, 1])
    ge_post(S, z, n, x, inc, m.ge(z, x, inc))


@contract("P07", [FN + "ge_lim"])
def ge_lim(S):
    m = _mod(S)
    n = S.dim("n", 0)
    z = _sorted(S, n)
    x = _x(S, z, n)
    inc = S.choice("inclusive", [0, 1])
    l = S.int("l", 0, n)
    h = S.int("h", l, n)
    ge_post(S, z, h, x, inc, m.ge_lim(z, x, inc, l, h), l)


@contract("P07", [FN + "ge_multi"])
def ge_multi(S):
    stubs.use_ge(S)
    m = _mod(S)
    n = S.dim("n", 0)
    k = S.dim("k", 0)
    z = _sorted(S, n)
    x = S.array("xs", k, kind="any")
    x0 = S.copy(x)
    inc = S.choice("inclusive", [0, 1])
    res = S.np.zeros(k)
    m.ge_multi(z, x, inc, res)
    hi = n - 1 if inc else n

    def ok(i, j):
        r = S.at(res, i)
        v = S.at(x0, i)
        return S.and_(
            r <= hi,
            S.or_(r >= 0, r == hi),
            S.implies(j < r, lambda: S.not_(S.at(z, j) >= v)),
            S.implies(S.and_(S.not_(S.isnan(v)), j >= r, j < hi, r >= 0), lambda: S.implies(S.eq(j, r, 0, 0), lambda: S.at(z, j) >= v)),
        )

    S.ensure_forall("every element is the first position not below its value", (k, n), ok)
    S.ensure_forall("result in range", k, lambda i: S.and_(S.at(res, i) <= hi, S.or_(S.at(res, i) >= 0, S.at(res, i) == hi)))
    S.ensure_forall("searched values unchanged", k, lambda i: S.eq(S.at(x, i), S.at(x0, i), 0, 0))


@contract("P07", [FN + "ge_multi", FN + "eq_multi", FN + "le_interp_multi"], trials=60)
def lengths(S):
    """inconsistent lengths are rejected"""
    stubs.use_ge(S)
    stubs.use_le(S)
    m = _mod(S)
    n = S.dim("n", 1)
    k = S.dim("k", 0)
    k2 = S.dim("k2", 0)
    z = _sorted(S, n)
    u = S.array("u", n)
    x = S.array("xs", k)
    S.assume(S.not_(S.eq(k, k2)))
    for label, f, a in (
        ("ge_multi", m.ge_multi, (z, x, 0)),
        ("eq_multi", m.eq_multi, (z, x, u, 1e-9)),
        ("le_interp_multi", m.le_interp_multi, (z, x, u, 0.0, 1e-9)),
    ):
        e, _ = S.call(f, *a, S.np.zeros(k2))
        S.ensure("%s rejects inconsistent lengths" % label, isinstance(e, ValueError))


@contract("P07", [FN + "eq_multi", FN + "check_equal"])
def eq_multi(S):
    stubs.use_le(S)
    m = _mod(S)
    n = S.dim("n", 1)
    k = S.dim("k", 0)
    eps = S.real("eps", 0.0, 0.25)
    z = S.array("z", n, order="strict")
    u = S.array("u", n)
    S.assume_forall(n, lambda i: S.implies(i + 1 < n, lambda: S.at(z, i + 1) - S.at(z, i) > 2 * eps))
    x = S.array("xs", k, kind="any")
    if not S.sym and "xs" not in S.given:
        for i in range(k):
            if S.rng.random() < 0.6:
                x[i] = z[int(S.rng.integers(0, n))] + S.rng.choice([0.0, 0.5, -0.5, 1.5]) * eps
        S._rec("xs", x)
    inplace = S.choice("inplace", [False, True])
    x0 = S.copy(x)
    res = x if inplace else S.np.zeros(k)
    m.eq_multi(z, x, u, eps, res)

    def close(i, j):
        return S.and_(S.isfinite(S.at(x0, i)), S.abs(S.at(z, j) - S.at(x0, i)) <= eps)

    def ok(i, j):
        d = S.abs(S.at(z, j) - S.at(x0, i))
        if not S.sym and S.isfinite(d) and abs(d - eps) < 1e-9:
            return True  # rounding at the tolerance itself
        return S.implies(close(i, j), lambda: S.eq(S.at(res, i), S.at(u, j)))

    S.ensure_forall("an equal element gives its value", (k, n), ok)
    S.ensure_forall(
        "no equal element gives NaN",
        k,
        lambda i: S.or_(
            S.isnan(S.at(res, i)),
            S.exists(n, lambda j: S.and_(S.isfinite(S.at(x0, i)), S.le(S.abs(S.at(z, j) - S.at(x0, i)), eps, 1e-9, 1e-9), S.eq(S.at(res, i), S.at(u, j)))),
        ),
    )


@contract("P07", [FN + "check_equal"])
def check_equal(S):
    m = _mod(S)
    a, b = S.real("a"), S.real("b")
    at, rt = S.real("atol", 0.0), S.real("rtol", 0.0)
    r = m.check_equal(a, b, at, rt)
    S.ensure("symmetric tolerance comparison", S.iff(r, S.abs(a - b) <= at + rt * (S.abs(a) + S.abs(b))))


def _interp_post(S, z, u, n, x, out_left, eps, r, label):
    """r is the piecewise linear interpolation at x (positions found with tolerance eps)"""
    tol = 1e-9 if not S.sym else 0.0
    S.ensure(label + "not finite gives NaN", S.implies(S.not_(S.isfinite(x)), lambda: S.isnan(r)))

    def seg(i):
        zi, ui = S.at(z, i), S.at(u, i)
        hit = S.and_(zi <= x + eps, S.or_(i + 1 >= n, lambda: True) if False else True)
        last = i + 1 >= n
        nxt_above = S.or_(last, S.implies(i + 1 < n, lambda: S.gt(S.at(z, i + 1), x + eps)))

        def val():
            inner = S.and_(S.not_(last), zi < x)

            def lin():
                z1, u1 = S.at(z, i + 1), S.at(u, i + 1)
                w = (x - zi) / (z1 - zi)
                return S.and_(
                    S.eq(r, ui + w * (u1 - ui)),
                    S.le(S.min(ui, u1), r, 1e-7, 1e-7),
                    S.le(r, S.max(ui, u1), 1e-7, 1e-7),
                )

            return S.and_(S.implies(inner, lin), S.implies(S.not_(inner), lambda: S.eq(r, ui)))

        return S.implies(S.and_(S.isfinite(x), hit, nxt_above), val)

    S.ensure_forall(label + "value between neighbours, linear", n, seg)
    S.ensure(
        label + "left of the first element",
        S.implies(S.and_(S.isfinite(x), n > 0), lambda: S.implies(S.gt(S.at(z, 0), x + eps), lambda: S.eq(r, out_left))),
    )


@contract("P07", [FN + "le_interp"])
def le_interp(S):
    stubs.use_le(S)
    m = _mod(S)
    n = S.dim("n", 0)
    z = S.array("z", n, order="strict")
    u = S.array("u", n)
    eps = S.choice("eps", [0.0, 1e-9])
    x = _x(S, z, n)
    left = S.real("left", kind="nan")
    r = m.le_interp(z, x, u, left, eps)
    S.ensure("empty gives NaN", S.implies(n == 0, lambda: S.isnan(r)))
    _interp_post(S, z, u, n, x, left, eps, r, "")


@contract("P07", [FN + "le_interp_multi"])
def le_interp_multi(S):
    stubs.use_le(S)
    m = _mod(S)
    n = S.dim("n", 1)
    k = S.dim("k", 1)
    z = S.array("z", n, order="strict")
    u = S.array("u", n)
    x = S.array("xs", k, kind="any")
    if not S.sym and "xs" not in S.given:
        for i in range(k):
            if S.rng.random() < 0.4:
                x[i] = z[int(S.rng.integers(0, n))]
        S._rec("xs", x)
    left = S.real("left", kind="nan")
    x0 = S.copy(x)
    inplace = S.choice("inplace", [False, True])
    res = x if inplace else S.np.zeros(k)
    m.le_interp_multi(z, x, u, left, 1e-9, res)
    i = S.int("i", 0, k - 1)
    _interp_post(S, z, u, n, S.at(x0, i), left, 1e-9, S.at(res, i), "element: ")
