"""Callee contracts used in place of bodies (each proved by the named contract)."""
from .. import arr
from ..core import *  # noqa
from ..core import z3, cx

BS = z3.BoolSort()


def _xargs(x):
    x = as_real(x)
    return x, [x.v] + [zb(f) for f in (x.nan, x.pinf, x.ninf)]


def _search(name, z, x, inc, lo, hi, post, ctx_key):
    """integer result of a search as a function of the value; z: SymArray (sorted)"""
    c = cx()
    x, args = _xargs(x)
    F = c.memo.setdefault(ctx_key, None)
    if F is None:
        c.memo[ctx_key] = F = z3.Function("%s!%d" % (name, len(c.memo)), z3.RealSort(), BS, BS, BS, z3.IntSort())
        c.keep.append(z)
    r = F(*args)
    key = (ctx_key, r.get_id())
    if key not in c.memo:
        c.memo[key] = True
        c.keep.append(r)
        hy, c.hyps = c.hyps, []
        try:
            post(c, x, r)
        finally:
            c.hyps = hy
    return SInt(r)


def use_le(S):
    """binning._binary_search.le replaced by its contract (proved by P07/le)"""
    if not S.sym:
        return
    m = S.mod("binning._binary_search")

    def le(z, x, inclusive):
        z = arr.asarray(z)
        n = z._shape[0]
        inc = bool(inclusive)
        lo = 0 if inc else -1
        f = z.snap()
        x = x.as_scalar() if isinstance(x, arr.SymArray) else x

        def post(c, x, r):
            zn = arr.zi(n)
            c.add(z3.And(r >= lo, z3.Or(r < zn, r == lo)))
            c.register(r)
            v = z3.And(r >= 0, r < zn)
            c.hyps = [v]
            c.add(z3.Implies(z3.And(r > lo, z3.Not(zb(x.nan))), zb(cmp("<=", f((r,)), x).e)))
            c.hyps = []

            def u(t):
                c.hyps, h = [z3.And(t >= 0, t < zn, t > r)], c.hyps
                c.add(zb(bnot(cmp("<=", f((arr.ix(t),)), x).e)))
                c.hyps = h

            c.universal(u)

        return _search("le", z, x, inc, lo, None, post, ("le", id(z.store), id(z.store.f), inc))

    S.patch(m, "le", le)


def use_ge(S):
    """binning._binary_search.ge replaced by its contract (proved by P07/ge)"""
    if not S.sym:
        return
    m = S.mod("binning._binary_search")

    def ge(z, x, inclusive):
        z = arr.asarray(z)
        n = z._shape[0]
        inc = bool(inclusive)
        hi = arr.isub(n, 1) if inc else n
        f = z.snap()
        x = x.as_scalar() if isinstance(x, arr.SymArray) else x

        def post(c, x, r):
            zh = arr.zi(hi)
            c.add(z3.And(r <= zh, z3.Or(r >= 0, r == zh)))
            c.register(r)
            c.hyps = [z3.And(r >= 0, r < zh)]
            c.add(z3.Implies(z3.Not(zb(x.nan)), zb(cmp(">=", f((r,)), x).e)))
            c.hyps = []

            def u(t):
                c.hyps, h = [z3.And(t >= 0, t < r)], c.hyps
                c.add(zb(bnot(cmp(">=", f((arr.ix(t),)), x).e)))
                c.hyps = h

            c.universal(u)

        return _search("ge", z, x, inc, None, hi, post, ("ge", id(z.store), id(z.store.f), inc))

    S.patch(m, "ge", ge)


def use_ge_lim(S, module="binning.ecdf_transformer"):
    """binning._binary_search.ge_lim replaced by its contract (proved by P07/ge_lim)"""
    if not S.sym:
        return
    m = S.mod(module)

    def ge_lim(z, z_searched, inclusive, i_left, i_right):
        c = cx()
        z = arr.asarray(z)
        n, lo, hi = arr.zi(z._shape[0]), arr.zi(arr.ix(i_left)), arr.zi(arr.ix(i_right))
        if not c.valid(z3.And(0 <= lo, lo <= hi, hi <= n)):
            raise Unsupported("ge_lim called outside its precondition")
        top = hi - 1 if bool(inclusive) else hi
        f = z.snap()
        x = as_real(z_searched)
        r = c.fresh("ge_lim", "I")
        c.add(z3.And(r <= top, z3.Or(r >= lo, r == top)))
        c.register(r)
        c.hyps, h = c.hyps + [z3.And(r >= lo, r < top)], c.hyps
        c.add(z3.Implies(z3.Not(zb(x.nan)), zb(cmp(">=", f((r,)), x).e)))
        c.hyps = h

        def u(t):
            c.hyps, h = [z3.And(t >= lo, t < r)], c.hyps
            c.add(zb(bnot(cmp(">=", f((arr.ix(t),)), x).e)))
            c.hyps = h

        c.universal(u)
        return SInt(r)

    S.patch(m, "ge_lim", ge_lim)


def use_min_int(S):
    """bin_number_transformer._as_int_array_of_minimum_dtype replaced by its contract (proved by P05/smallest_dtype)"""
    if not S.sym:
        return
    m = S.mod("binning.bin_number_transformer")

    def as_int(a):
        return a if isinstance(a, int) else arr.asarray(a).astype("int64")

    S.patch(m, "_as_int_array_of_minimum_dtype", as_int)
