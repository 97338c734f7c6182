"""Flags."""
from ..spec import bounded, contract

QUERY = {
    "is_continuous_set": "IS_CONTINUOUS",
    "is_ordered_set": "IS_ORDERED",
    "is_unordered_set": "IS_UNORDERED",
    "is_monotonic_set": "IS_MONOTONIC",
    "has_missing_set": "HAS_MISSING",
    "missing_not_learned_set": "MISSING_NOT_LEARNED",
    "has_magic_missing_set": "HAS_MAGIC_INT_MISSING",
    "is_linear_set": "IS_LINEAR",
    "is_seasonal_set": "IS_SEASONAL",
    "increasing_set": "INCREASING",
    "decreasing_set": "DECREASING",
}
IMPLIES = {"IS_MONOTONIC": ["IS_CONTINUOUS"], "MISSING_NOT_LEARNED": ["HAS_MISSING"], "HAS_MAGIC_INT_MISSING": ["HAS_MISSING"]}
NAMES = list(QUERY.values()) + ["USE_ORIGINAL", "CORR_TO_WIDTH"]


def _bit(p, k):
    return (p // (1 << k)) % 2 == 1


@contract("P16", ["flags." + q for q in QUERY], trials=400)
def queries(S):
    """for every integer value: a query is the conjunction of the bits of its flag"""
    F = S.mod("flags")
    p = S.int("p", 0, (1 << 13) - 1)
    for q, nm in QUERY.items():
        c = getattr(F, nm)
        bits = [k for k in range(c.bit_length()) if c >> k & 1]
        S.ensure("%s answers whether all bits of %s are included" % (q, nm), S.iff(getattr(F, q)(p), S.and_(*[_bit(p, k) for k in bits])))


@contract("P16", ["flags (constants)"], trials=1)
def constants(S):
    """every flag has its own bit and exactly the implied ones besides"""
    F = S.mod("flags")
    val = {n: getattr(F, n) for n in NAMES}
    own = {}
    for n in NAMES:
        v = val[n]
        for i in IMPLIES.get(n, []):
            S.ensure("%s implies %s" % (n, i), val[i] & v == val[i])
            v &= ~val[i]
        S.ensure("%s has exactly one own bit" % n, v > 0 and v & (v - 1) == 0)
        own[n] = v
    S.ensure("own bits are distinct", len(set(own.values())) == len(NAMES))
    S.ensure("monotonic directions", F.IS_MONOTONIC_INCREASING == F.IS_MONOTONIC | F.INCREASING if hasattr(F, "IS_MONOTONIC_INCREASING") else True)


@contract("P16", ["flags.check_flags_consistency"], trials=400)
def consistency(S):
    F = S.mod("flags")
    p = S.int("p", 0, (1 << 13) - 1)

    def has(nm):
        c = getattr(F, nm)
        return S.and_(*[_bit(p, k) for k in range(c.bit_length()) if c >> k & 1])

    a, b, c = has("IS_CONTINUOUS"), has("IS_ORDERED"), has("IS_UNORDERED")
    one = S.or_(
        S.and_(a, S.not_(b), S.not_(c)),
        S.and_(b, S.not_(a), S.not_(c)),
        S.and_(c, S.not_(a), S.not_(b)),
    )
    good = S.and_(one, S.not_(S.and_(has("INCREASING"), has("DECREASING"))))
    e, _ = S.call(F.check_flags_consistency, p)
    S.ensure("accepted exactly if consistent", S.iff(e is None, good))
    S.ensure("rejection is a ValueError", e is None or isinstance(e, ValueError))


@contract("P16", ["flags.read_feature_property"], trials=200)
def lookup(S):
    F = S.mod("flags")
    d = S.int("default", 0, 8191)
    a = S.int("a", 0, 8191)
    b = S.int("b", 0, 8191)
    props = S.choice("props", [None, "ab"])
    props = None if props is None else {"x": a, "y": b}
    S.ensure("known column", S.eq(F.read_feature_property(props, "x", d), d if props is None else a))
    S.ensure("unknown column gets the default", S.eq(F.read_feature_property(props, "z", d), d))
    t = F.read_feature_property(props, ("y", "z", "x"), d)
    S.ensure("one entry per column of a group", isinstance(t, tuple) and len(t) == 3)
    S.ensure("group looked up per column", S.and_(S.eq(t[0], d if props is None else b), S.eq(t[1], d), S.eq(t[2], d if props is None else a)))


@bounded("P16", ["flags (all combinations)"], trials=1)
def exhaustive(S):
    """all 2^13 combinations of flags: the query of X is true iff X is implied by a member"""
    F = S.mod("flags")
    val = [getattr(F, n) for n in NAMES]
    clos = {n: {n} for n in NAMES}
    for k, v in IMPLIES.items():
        clos[k] |= set(v)
    bad = []
    for mask in range(1 << len(NAMES)):
        p, members = 0, set()
        for k, n in enumerate(NAMES):
            if mask >> k & 1:
                p |= val[k]
                members |= clos[n]
        for q, nm in QUERY.items():
            if bool(getattr(F, q)(p)) != (nm in members):
                bad.append((q, sorted(members)))
    S.ensure("queries are independent for all combinations %s" % bad[:1], not bad)
