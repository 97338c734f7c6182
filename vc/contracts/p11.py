"""Link functions."""
from ..spec import contract


def _mk(S, cls):
    m = S.mod("link")
    base = getattr(m, cls)
    return base()


CASES = {"log": ("LogLinkMixin", 0.0, None), "logit": ("LogitLinkMixin", 0.0, 1.0), "identity": ("IdentityLinkMixin", None, None)}


def _values(S, which, n, name):
    cls, lo, hi = CASES[which]
    return S.array(name, n, lo, hi, lo_open=True, hi_open=True, scale=3.0)


def _roundtrip(S, which):
    L = _mk(S, CASES[which][0])
    n = S.dim("n", 1)
    m = _values(S, which, n, "m")
    m0 = S.copy(m)
    l = L.link_func(m)
    back = L.unlink_func(l)
    S.ensure_forall("link then inverse link returns the value", n, lambda i: S.eq(S.at(back, i), S.at(m0, i)))
    S.ensure_forall("link of a value inside the range is finite", n, lambda i: S.isfinite(S.at(l, i)))
    S.ensure_forall("input unchanged by the link", n, lambda i: S.eq(S.at(m, i), S.at(m0, i), 0, 0))
    x = S.array("x", n, None if S.sym else -12.0, None if S.sym else 12.0)
    x0 = S.copy(x)
    y = L.unlink_func(x)
    again = L.link_func(y)
    S.ensure_forall("inverse link then link returns the value", n, lambda i: S.eq(S.at(again, i), S.at(x0, i), 1e-6, 1e-6))
    S.ensure_forall("input unchanged by the inverse link", n, lambda i: S.eq(S.at(x, i), S.at(x0, i), 0, 0))
    lo, hi = CASES[which][1:]
    if lo is not None:
        S.ensure_forall("inverse link lands above the lower end", n, lambda i: S.gt(S.at(y, i), lo))
    if hi is not None:
        S.ensure_forall("inverse link lands below the upper end", n, lambda i: S.lt(S.at(y, i), hi))
    S.ensure_forall(
        "both directions are strictly increasing",
        (n, n),
        lambda i, j: S.and_(
            S.implies(S.lt(S.at(m0, i), S.at(m0, j)), lambda: S.le(S.at(l, i), S.at(l, j)) if not S.sym else S.lt(S.at(l, i), S.at(l, j))),
            S.implies(S.lt(S.at(x0, i), S.at(x0, j)), lambda: S.le(S.at(y, i), S.at(y, j)) if not S.sym else S.lt(S.at(y, i), S.at(y, j))),
        ),
    )
    # the result does not share memory with the input
    l[0] = 0.25
    y[0] = 0.25
    S.ensure_forall("result is a copy", n, lambda i: S.and_(S.eq(S.at(m, i), S.at(m0, i), 0, 0), S.eq(S.at(x, i), S.at(x0, i), 0, 0)))


@contract("P11", ["link.LogLinkMixin.link_func", "link.LogLinkMixin.unlink_func"])
def log_link(S):
    _roundtrip(S, "log")


@contract("P11", ["link.LogitLinkMixin.link_func", "link.LogitLinkMixin.unlink_func"])
def logit_link(S):
    _roundtrip(S, "logit")


@contract("P11", ["link.IdentityLinkMixin.link_func", "link.IdentityLinkMixin.unlink_func"])
def identity_link(S):
    _roundtrip(S, "identity")


@contract("P11", ["link.LogitLinkMixin.link_func"])
def logit_definition(S):
    L = _mk(S, "LogitLinkMixin")
    n = S.dim("n", 1)
    p = S.array("p", n, 0.0, 1.0, lo_open=True, hi_open=True)
    l = L.link_func(p)
    S.ensure_forall("logit is the log odds", n, lambda i: S.eq(S.at(l, i), S.log(S.at(p, i) / (1 - S.at(p, i)))))
    S.ensure_forall("the log link is the logarithm", n, lambda i: S.eq(S.at(_mk(S, "LogLinkMixin").link_func(p), i), S.log(S.at(p, i))))


@contract("P11", ["link.LogLinkMixin.is_in_range", "link.LogitLinkMixin.is_in_range", "link.IdentityLinkMixin.is_in_range"])
def ranges(S):
    n = S.dim("n", 0)
    v = S.array("v", n, kind="any")
    which = S.choice("which", ["log", "logit", "identity"])
    L = _mk(S, CASES[which][0])
    ok = L.is_in_range(v)
    if which == "log":
        want = S.forall(n, lambda i: S.gt(S.at(v, i), 0))
    elif which == "logit":
        want = S.forall(n, lambda i: S.and_(S.at(v, i) >= 0, S.at(v, i) <= 1))
    else:
        want = True
    S.ensure("range check accepts exactly the valid sets", S.iff(ok, want))
