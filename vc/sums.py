"""Sums over symbolic index ranges.

A sum is normalised: the summand at a generic index is expanded into monomials
with 0/1 guards, index-free factors are pulled out and each remaining base sum
becomes one term (the same summand always gives the same term).  Facts about
base sums: sign and pairwise order, each decided by the solver at the generic
index (which stands for every index of the range).
"""
from .core import *  # noqa
from .core import z3, cx

MAXMON = 160


def iota(n, kind=1):
    """the generic index of a range; never one that is bound at the moment"""
    c = cx()
    level = 0
    while True:
        key = ("iota", n if isinstance(n, int) else n.get_id(), kind, level)
        if key not in c.memo:
            if not isinstance(n, int):
                c.keep.append(n)
            k = c.nfresh.get("iota", 0)
            c.nfresh["iota"] = k + 1
            v = z3.Int("iota!%d" % k)
            c.memo[key] = v
            c.memo.setdefault("iotas", {})[v.get_id()] = v
            if level == 0:
                with c.under(v >= 0, v < n):
                    c.register(v)
        if c.memo[key].get_id() not in c.active:
            return c.memo[key]
        level += 1


def canon(n, kind, it, *exprs):
    """the expressions at the usual generic index of the range, if they depend on no index bound outside"""
    c = cx()
    it0 = c.memo[("iota", n if isinstance(n, int) else n.get_id(), kind, 0)]
    if it0.eq(it):
        return (it,) + exprs
    for i in c.iotas_in(*exprs):
        if i in c.active and i != it.get_id():
            return (it,) + exprs
    out = tuple(z3.substitute(e, (it, it0)) if is_z3(e) else e for e in exprs)
    c.keep += [e for e in out if is_z3(e)]
    return (it0,) + out


def in_range(i, n):
    return band(_le(0, i), _lt(i, n))


def _le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return a <= b


def _lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return a < b


def contains(e, vids):
    """does e contain one of the constants with these ids"""
    c = cx()
    memo = c.memo.setdefault("contains", {})
    key = (e.get_id(), vids)
    r = memo.get(key)
    if r is not None:
        return r
    c.keep.append(e)
    stack, seen, r = [e], set(), False
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in vids:
            r = True
            break
        if i in seen:
            continue
        seen.add(i)
        stack.extend(x.children())
    memo[key] = r
    return r


def poly(e):
    """z3 real/int term -> list of (coeff, tuple of atom keys); atoms by id.
    atom keys: ('g', id) guard, ('a', id) arithmetic atom, ('i', id) inverse of atom"""
    c = cx()
    tab = c.memo.setdefault("atoms", {})

    def atom(kind, t):
        k = (kind, t.get_id())
        if k not in tab:
            tab[k] = t
        return {(k,): Fraction(1)}

    def mulm(m1, m2):
        gs, rest = set(), []
        for k in m1 + m2:
            if k[0] == "g":
                gs.add(k)
            else:
                rest.append(k)
        # a * 1/a cancels only when the inverse is defined; keep both
        return tuple(sorted(gs)) + tuple(sorted(rest))

    def mul(p, q):
        if len(p) * len(q) > MAXMON * 4:
            raise OverflowError
        out = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = mulm(m1, m2)
                out[m] = out.get(m, 0) + c1 * c2
        return {m: v for m, v in out.items() if v != 0}

    def addp(p, q, s=1):
        out = dict(p)
        for m, v in q.items():
            out[m] = out.get(m, 0) + s * v
        return {m: v for m, v in out.items() if v != 0}

    memo = c.memo.setdefault("poly", {})
    isums = c.memo.setdefault("isums", {})

    def guard(cond):
        """0/1 polynomial of a Boolean condition"""
        k = bconst(cond)
        if k is not None:
            return {(): Fraction(1)} if k else {}
        if z3.is_not(cond):
            return addp({(): Fraction(1)}, guard(cond.arg(0)), -1)
        if z3.is_and(cond):
            p = {(): Fraction(1)}
            for ch in cond.children():
                p = mul(p, guard(ch))
            return p
        if z3.is_or(cond):
            p = {(): Fraction(1)}
            for ch in cond.children():
                p = mul(p, addp({(): Fraction(1)}, guard(ch), -1))
            return addp({(): Fraction(1)}, p, -1)
        if z3.is_le(cond) or z3.is_lt(cond) or z3.is_ge(cond) or z3.is_gt(cond) or z3.is_eq(cond):
            s = z3.simplify(cond, arith_lhs=True)
            if z3.is_not(s):
                return guard(s)
            if z3.is_and(s) or z3.is_or(s) or bconst(s) is not None:
                return guard(s)
            return atom("g", s)
        return atom("g", cond)

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i]
        c.keep.append(t)
        memo[i] = r = go1(t)
        return r

    def go1(t):
        n = num_of(t)
        if n is not None:
            return {(): n} if n != 0 else {}
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            p = {}
            for ch in t.children():
                p = addp(p, go(ch))
            return p
        if k == z3.Z3_OP_SUB:
            ch = t.children()
            p = go(ch[0])
            for x in ch[1:]:
                p = addp(p, go(x), -1)
            return p
        if k == z3.Z3_OP_UMINUS:
            return addp({}, go(t.arg(0)), -1)
        if k == z3.Z3_OP_MUL:
            p = {(): Fraction(1)}
            for ch in t.children():
                p = mul(p, go(ch))
            return p
        if k == z3.Z3_OP_DIV:
            d = t.arg(1)
            nd = num_of(d)
            if nd is not None and nd != 0:
                return addp({}, go(t.arg(0)), 1 / nd)
            return mul(go(t.arg(0)), atom("i", z3.simplify(d)))
        if k == z3.Z3_OP_TO_REAL:
            a = t.arg(0)
            if a.get_id() in isums:
                return go(isums[a.get_id()])
            ka = a.decl().kind()
            if ka in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_ITE, z3.Z3_OP_UMINUS) or num_of(a) is not None:
                return go(a)
            return atom("a", t)
        if k == z3.Z3_OP_POWER and num_of(t.arg(1)) is not None and num_of(t.arg(1)).denominator == 1 and 0 <= num_of(t.arg(1)) <= 6:
            p = {(): Fraction(1)}
            for _ in range(int(num_of(t.arg(1)))):
                p = mul(p, go(t.arg(0)))
            return p
        if k == z3.Z3_OP_ITE:
            g = guard(t.arg(0))
            a, b = go(t.arg(1)), go(t.arg(2))
            return addp(b, mul(g, addp(a, b, -1)))
        if t.is_int():
            if t.get_id() in isums:
                return go(isums[t.get_id()])
            return atom("a", z3.ToReal(t))
        return atom("a", t)

    return go(e), tab


def term_of(mono, tab):
    t = None
    for k in mono:
        x = tab[k]
        if k[0] == "g":
            x = z3.If(x, z3.RealVal(1), z3.RealVal(0))
        elif k[0] == "i":
            x = z3.RealVal(1) / x
        t = x if t is None else t * x
    return z3.RealVal(1) if t is None else t


def to_z3(p, tab):
    s = None
    for m, v in p.items():
        x = term_of(m, tab)
        x = x if v == 1 else z3.RealVal(v) * x
        s = x if s is None else s + x
    return z3.RealVal(0) if s is None else s


def sum_over(n, f, lo=0):
    """sum of f(i) for lo <= i < n; f returns a scalar"""
    c = cx()
    if isinstance(n, int) and isinstance(lo, int):
        if n - lo > 64:
            raise Unsupported("long concrete sum")
        tot = None
        for i in range(lo, n):
            x = f(i)
            tot = x if tot is None else lift(tot) + lift(x)
        return 0.0 if tot is None else tot
    if lo != 0:
        raise Unsupported("sum with a lower bound")
    it = iota(n)
    with c.under(it >= 0, it < n):
        e = lift(f(it))
        isint = isinstance(e, (SInt, SBool))
        e = as_real(e)
        nonflag = e.plain
    flags = (False, False, False)
    if not nonflag:
        from . import arr

        fl = []
        for nm in ("nan", "pinf", "ninf"):
            if getattr(e, nm) is False:
                fl.append(False)
            else:
                fl.append(zb(lift(arr.exists(n, lambda i, nm=nm: SBool(getattr(as_real(f(i)), nm)))).e))
        nan = bor(fl[0], band(fl[1], fl[2]))
        flags = (prune(nan), prune(band(fl[1], bnot(nan))), prune(band(fl[2], bnot(nan))))
        ev = zite(e.finite, e.v, z3.RealVal(0)) if e.finite is not True else e.v
    else:
        ev = e.v
    it, ev = canon(n, 1, it, ev)
    try:
        p, tab = poly(ev)
        p = dict(p)
        if len(p) > MAXMON:
            raise OverflowError
    except OverflowError:
        p, tab = {(("a", ev.get_id()),): Fraction(1)}, {("a", ev.get_id()): ev}
        c.keep.append(ev)
    vid = frozenset([it.get_id()])
    groups = {}
    swapped = None
    byatom = {}
    for m, v in list(p.items()):
        k = exchangeable(it, m, tab)
        if k is not None:
            byatom.setdefault(k, []).append((m, v))
            del p[m]
    for (k, g), ms in sorted(byatom.items()):
        x = exchange(n, it, k, g, ms, tab)
        swapped = x if swapped is None else swapped + x
    for m, v in p.items():
        inner = tuple(k for k in m if contains(tab[k], vid))
        outer = tuple(k for k in m if not contains(tab[k], vid))
        g = groups.setdefault(inner, {})
        g[outer] = g.get(outer, 0) + v
    total = None
    nonlin = False
    nz = z3.ToReal(n) if is_z3(n) else z3.RealVal(n)
    for inner, outer in sorted(groups.items()):
        co = to_z3(outer, tab)
        nco = num_of(z3.simplify(co))
        if nco == 0:
            continue
        if not inner:
            s = nz
        else:
            s = base_sum(n, it, inner, tab, f)
            if s is None:
                continue
        nonlin = nonlin or nco is None
        x = s if nco == 1 else zmul(co if nco is None else z3.RealVal(nco), s)
        total = x if total is None else total + x
    if swapped is not None:
        total = swapped if total is None else total + swapped
        groups[("swapped",)] = {}
    if total is None:
        total = z3.RealVal(0)
    if nonlin and len(groups) > 1:
        total = named(total)
    if len(groups) > 1:
        key = ("whole", n.get_id() if is_z3(n) else n, ev.get_id(), total.get_id())
        if key not in c.memo:
            c.memo[key] = True
            c.keep += [ev, total]
            with c.under(it >= 0, it < n):
                nonneg = c.valid(ev >= 0)
                nonpos = not nonneg and c.valid(ev <= 0)
            if nonneg:
                c.add(total >= 0)
            if nonpos:
                c.add(total <= 0)
            if nonneg and nonlin:
                c.memo.setdefault("nntotals", []).append((total, ev, it, n, list(c.hyps), set(), f))
                points(c, *c.memo["nntotals"][-1])
            c.memo.setdefault("totals", []).append((total, ev, it, n, list(c.hyps)))
    if isint and flags == (False, False, False):
        return SReal(total) if not isint else _int_sum(total)
    return SReal(total, *flags)


def exchangeable(it, mono, tab):
    """a factor of the monomial that is a sum over [x_i = j] r_i, where j is the index it, and that guard"""
    recs = cx().memo.get("inners", {})
    vid = frozenset([it.get_id()])
    for k in mono:
        rec = recs.get(tab[k].get_id()) if k[0] == "a" else None
        if rec is None:
            continue
        inner, itab, i2, n2, f2 = rec
        if not is_z3(n2) or contains(n2, vid):
            continue
        for g in inner:
            if g[0] == "g" and contains(itab[g], vid) and _solve_eq(itab[g], it) is not None and not any(o != g and contains(itab[o], vid) for o in inner):
                return k, g
    return None


def exchange(n, it, k, g, monos, tab):
    """sum_j h(j) * (sum_i [x_i = j] r_i)  =  sum_i [0 <= x_i < n] r_i h(x_i)"""
    c = cx()
    inner, itab, i2, n2, f2 = c.memo["inners"][tab[k].get_id()]
    h = None
    for m, v in monos:
        left = list(m)
        left.remove(k)
        t = zmul(z3.RealVal(v), term_of(tuple(left), tab))
        h = t if h is None else h + t
    i1 = iota(n2)
    x = z3.substitute(_solve_eq(itab[g], it), (i2, i1))
    r = z3.substitute(term_of(tuple(o for o in inner if o != g), itab), (i2, i1))
    h = z3.substitute(h, (it, x))
    with c.under(i1 >= 0, i1 < n2):
        f2(i1)
        c.register(z3.simplify(x))
        inr = z3.And(x >= 0, x < n)
        e = zmul(r, h)
        if not c.valid(inr):
            e = zmul(e, z3.If(inr, z3.RealVal(1), z3.RealVal(0)))
        nonneg = c.valid(e >= 0)
        nonpos = not nonneg and c.valid(e <= 0)
    c.keep += [x, r, h, e]
    total = sum_over_expr(n2, i1, e)
    if nonneg:
        c.add(total >= 0)
    if nonpos:
        c.add(total <= 0)
    return total


def _solve_eq(cond, it):
    """x with (cond <=> x == it), for an equation linear in it with coefficient one"""
    if not z3.is_eq(cond) or not cond.arg(0).is_int():
        return None
    e = cond.arg(0) - cond.arg(1)
    e0 = z3.substitute(e, (it, z3.IntVal(0)))
    for k in (1, -1):
        if z3.is_true(z3.simplify(e - e0 - k * it == 0)):
            return z3.simplify(-k * e0)
    return None


def sum_over_expr(n, it, e):
    """normalised sum of a term over its generic index"""
    p, tab = poly(e)
    vid = frozenset([it.get_id()])
    total = None
    for m, v in sorted(p.items()):
        inner = tuple(k for k in m if contains(tab[k], vid))
        outer = tuple(k for k in m if not contains(tab[k], vid))
        s = (z3.ToReal(n) if is_z3(n) else z3.RealVal(n)) if not inner else base_sum(n, it, inner, tab, lambda i: 0)
        if s is None:
            continue
        x = zmul(zmul(z3.RealVal(v), term_of(outer, tab)) if outer else z3.RealVal(v), s)
        total = x if total is None else total + x
    return z3.RealVal(0) if total is None else total


def named(total):
    """a constant for a sum with symbolic coefficients; proofs are first tried without its definition"""
    c = cx()
    key = ("named", total.get_id())
    if key not in c.memo:
        t = c.dep("T", "R", total)
        c.keep.append(total)
        c.memo[key] = t
        d = t == total
        c.facts.append(d)
        c.defs.add(d.get_id())
    return c.memo[key]


def _int_sum(total):
    c = cx()
    key = ("intsum", total.get_id())
    if key not in c.memo:
        k = c.dep("isum", "I", total)
        c.keep.append(total)
        c.memo[key] = k
        c.memo.setdefault("isums", {})[k.get_id()] = total
        c.keep.append(k)
        c.add(z3.ToReal(k) == total)
    return SInt(c.memo[key])


def vanishes(gs, atoms):
    """the guards alone force one of the factors to zero"""
    for a in atoms:
        for g in gs:
            if z3.is_eq(g) and (g.arg(0).eq(a) or g.arg(1).eq(a)):
                s = z3.Solver()
                s.set("timeout", 300)
                s.add(*gs)
                s.add(a != 0)
                if s.check() == z3.unsat:
                    return True
    return False


def _others(e, it):
    """the generic indices of a term besides its own, in the order of their occurrence"""
    iotas = cx().memo["iotas"]
    out, seen, todo = [], set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.get_id() in iotas and not t.eq(it):
            out.append(t)
        todo.extend(reversed(t.children()))
    return out


def _family(n, it, e, others):
    """sums that differ in the names of generic indices only are one function of these indices"""
    c = cx()
    body = z3.substitute(e, (it, z3.Int("own!")), *[(v, z3.Int("other!%d" % k)) for k, v in enumerate(others)])
    key = ("family", n.get_id() if is_z3(n) else n, body.get_id())
    if key not in c.memo or is_z3(n) and _others(n, it):
        c.keep.append(body)
        k = c.nfresh.get("S", 0)
        c.nfresh["S"] = k + 1
        c.memo[key] = z3.Function("S!%d" % k, *[z3.IntSort() for _ in others], z3.RealSort())
    return c.memo[key]


def base_sum(n, it, inner, tab, f):
    c = cx()
    e = term_of(inner, tab)
    key = ("S", n.get_id() if is_z3(n) else n, e.get_id())
    if key in c.memo:
        return c.memo[key]
    c.keep.append(e)
    with c.under(it >= 0, it < n):
        # contradictory guards
        gs = [tab[k] for k in inner if k[0] == "g"]
        if gs and (c.unsat(z3.And(*gs)) or vanishes(gs, [tab[k] for k in inner if k[0] == "a"])):
            c.memo[key] = None
            return None
    others = _others(e, it)
    if others:
        s = _family(n, it, e, others)(*others)
    else:
        k = c.nfresh.get("S", 0)
        c.nfresh["S"] = k + 1
        s = z3.Real("S!%d" % k)
    c.memo[key] = s
    c.memo.setdefault("inners", {})[s.get_id()] = (inner, tab, it, n, f)
    c.keep.append(s)
    hy = list(c.hyps)
    rec = (s, e, it, n, f, hy)
    allsums = c.memo.setdefault("sums", [])
    with c.under(it >= 0, it < n):
        nonneg = c.valid(e >= 0)
        nonpos = False if nonneg else c.valid(e <= 0)
        pos = nonneg and c.valid(e > 0)
    if nonneg:
        c.add(s >= 0)
    if pos:
        c.add(s > 0, n > 0)
    if nonpos:
        c.add(s <= 0)
    c.add(s == 0, n <= 0)
    allsums.append((rec, nonneg, nonpos))
    return s


def saturate(level=1):
    """facts relating base sums, decided at the generic index (level 0: equalities only)"""
    c = cx()
    sums = c.memo.get("sums", [])
    whole(c, level)
    done = c.memo.setdefault("satdone", set())
    for a in range(len(sums)):
        (s1, e1, i1, n1, f1, hy1), nn1, np1 = sums[a]
        if nn1:
            for t in list(c.terms):
                if t.get_id() in c.memo["iotas"]:
                    continue
                k = (a, "t", t.get_id())
                if k in done:
                    continue
                done.add(k)
                v = z3.substitute(e1, (i1, t))
                c.add(s1 >= v, z3.And(t >= 0, t < n1))
        for b in range(a):
            if (a, b, level) in done or (a, b, "=") in done:
                continue
            done.add((a, b, level))
            (s2, e2, i2, n2, f2, hy2), nn2, np2 = sums[b]
            samen = n1.eq(n2) if is_z3(n1) and is_z3(n2) else n1 is n2
            if not samen and not c.valid(n1 == n2):
                continue
            e2s = e2 if i1.eq(i2) else z3.substitute(e2, (i2, i1))
            with c.under(i1 >= 0, i1 < n1):
                eq = c.valid(e1 == e2s) if level == 0 or (a, b, 0) not in done else False
                le = eq or (level > 0 and c.valid(e1 <= e2s))
                ge = eq or (level > 0 and not le and c.valid(e1 >= e2s))
            if eq:
                done.add((a, b, "="))
                c.add(s1 == s2)
            elif le:
                c.add(s1 <= s2)
            elif ge:
                c.add(s1 >= s2)
            elif level >= 2 and len(sums) < 14:
                w = c.fresh("wit", "I")
                with c.under(*hy1, *hy2):
                    f1(w), f2(w)
                c.register(w)
                c.add(z3.Or(s1 == s2, z3.And(w >= 0, w < n1, z3.substitute(e1, (i1, w)) != z3.substitute(e2, (i2, w)))))


def points(c, t1, e1, i1, n1, h1, done, f1):
    """a sum of non-negative terms is at least each of them"""
    for t in list(c.terms) + [z3.IntVal(0)]:
        if t.get_id() in c.memo["iotas"] or t.get_id() in done:
            continue
        done.add(t.get_id())
        c.keep.append(t)
        hy, c.hyps = c.hyps, []
        try:
            with c.under(*h1):
                with c.under(t >= 0, t < n1):
                    f1(0 if num_of(t) == 0 else t)
                c.add(t1 >= z3.substitute(e1, (i1, t)), z3.And(t >= 0, t < n1))
        finally:
            c.hyps = hy


def whole(c, level=1):
    """equality and order of complete sums (of several base sums)"""
    for rec in c.memo.get("nntotals", [])[:12]:
        points(c, *rec)
    tots = c.memo.get("totals", [])[:12]
    for a in range(len(tots)):
        t1, e1, i1, n1, h1 = tots[a]
        for b in range(a):
            t2, e2, i2, n2, h2 = tots[b]
            if t1.eq(t2) or not (n1.eq(n2) if is_z3(n1) and is_z3(n2) else n1 is n2):
                continue
            e2s = e2 if i1.eq(i2) else z3.substitute(e2, (i2, i1))
            hy, c.hyps = c.hyps, []
            try:
                hs = h1 + [h for h in h2 if not any(h.eq(g) for g in h1)]
                with c.under(*hs):
                    with c.under(i1 >= 0, i1 < n1):
                        if c.valid(e1 == e2s):
                            r = t1 == t2
                        elif level == 0:
                            continue
                        elif c.valid(e1 <= e2s):
                            r = t1 <= t2
                        elif c.valid(e1 >= e2s):
                            r = t1 >= t2
                        else:
                            continue
                    c.add(r)
            finally:
                c.hyps = hy
