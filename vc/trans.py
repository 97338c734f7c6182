"""Transcendental functions as uninterpreted functions with ground axioms."""
from .core import *  # noqa
from .core import z3, cx

RS, IS = z3.RealSort(), z3.IntSort()
FN = {}
from .core import DEFS, Ctx  # noqa: E402


def fn(name, *sorts):
    if name not in FN:
        FN[name] = z3.Function(name, *(sorts or (RS, RS)))
    return FN[name]


def canon(t):
    t = z3.simplify(t, som=True)
    if has_div(t):
        r = ratnorm(t)
        if r is not None:
            return r
    return t


def has_div(t):
    c = cx()
    memo = c.memo.setdefault("hasdiv", {})
    i = t.get_id()
    if i in memo:
        return memo[i]
    c.keep.append(t)
    r = False
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_DIV and num_of(t.arg(1)) is None:
            r = True
        elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_POWER):
            r = any(has_div(x) for x in t.children())
    memo[i] = r
    return r


def padd(p, q):
    out = dict(p)
    for m, v in q.items():
        out[m] = out.get(m, 0) + v
        if out[m] == 0:
            del out[m]
    return out


def pmul(p, q):
    out = {}
    if len(p) * len(q) > 400:
        raise OverflowError
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = tuple(sorted(m1 + m2))
            out[m] = out.get(m, 0) + c1 * c2
    return {m: v for m, v in out.items() if v != 0}


def pdiv(p, q):
    """p / q when the division of polynomials is exact, else None"""
    if len(q) < 2 or len(p) > 200:
        return None

    def lead(f):
        return max(f, key=lambda m: (len(m), m))

    lq = lead(q)
    out = {}
    for _ in range(60):
        if not p:
            return out
        lp = lead(p)
        rest = list(lp)
        try:
            for a in lq:
                rest.remove(a)
        except ValueError:
            return None
        mono = {tuple(rest): p[lp] / q[lq]}
        out = padd(out, mono)
        p = padd(p, {m: -v for m, v in pmul(mono, q).items()})
    return None


class Rat:
    """num/den as lists of polynomial factors over atoms (polynomial: {sorted atom ids: coeff})"""

    def __init__(self, num, den):
        self.num, self.den = num, den

    @staticmethod
    def const(v):
        return Rat([{(): Fraction(v)}] if v != 0 else [{}], [])

    def one(self, fs):
        p = {(): Fraction(1)}
        for f in fs:
            p = pmul(p, f)
        return p

    def norm(self):
        num, den = [], list(self.den)
        if any(not f for f in self.num):
            return Rat([{}], [])
        co = Fraction(1)
        out_n, out_d = [], []
        for src, dst, s in ((self.num, out_n, 1), (self.den, out_d, -1)):
            for f in src:
                # pull out coefficient and common monomial
                lead = f[min(f)]
                f = {m: v / lead for m, v in f.items()}
                co = co * lead if s == 1 else co / lead
                common = None
                for m in f:
                    cnt = {}
                    for a in m:
                        cnt[a] = cnt.get(a, 0) + 1
                    common = cnt if common is None else {a: min(n, cnt.get(a, 0)) for a, n in common.items()}
                mono = [a for a, n in common.items() for _ in range(n)]
                for a in mono:
                    dst.append({(a,): Fraction(1)})
                if mono:
                    g = {}
                    for m, v in f.items():
                        m = list(m)
                        for a in mono:
                            m.remove(a)
                        g[tuple(m)] = v
                    f = g
                if f != {(): Fraction(1)}:
                    dst.append(f)
        for f in list(out_d):
            if f in out_n:
                out_n.remove(f)
                out_d.remove(f)
                continue
            for i, g in enumerate(out_n):
                h = pdiv(g, f)
                if h is not None:
                    out_n[i] = h
                    out_d.remove(f)
                    break
            else:
                for i, g in enumerate(out_n):
                    h = pdiv(f, g) if len(g) > 1 else None
                    if h is not None:
                        out_n[i] = {(): Fraction(1)}
                        out_d[out_d.index(f)] = h
                        break
        out_n = [f for f in out_n if f != {(): Fraction(1)}]
        out_n = [{(): co}] + out_n if co != 1 or not out_n else out_n
        return Rat(out_n, out_d)

    def mul(self, o):
        return Rat(self.num + o.num, self.den + o.den).norm()

    def inv(self):
        return Rat(self.den or [{(): Fraction(1)}], self.num)

    def add(self, o):
        if not self.den and not o.den:
            return Rat([padd(self.one(self.num), self.one(o.num))], []).norm()
        da, db = list(self.den), list(o.den)
        shared = []
        for f in list(da):
            if f in db:
                shared.append(f)
                da.remove(f)
                db.remove(f)
        n = padd(self.one(self.num + db), self.one(o.num + da))
        return Rat([n], shared + da + db).norm()


def ratnorm(t):
    """canonical quotient of a real term, None when a denominator may be zero"""
    c = cx()
    atoms = c.memo.setdefault("ratatoms", {})

    class Zero(Exception):
        pass

    def atom(x):
        atoms[x.get_id()] = x
        return Rat([{(x.get_id(),): Fraction(1)}], [])

    def nonzero(x):
        if not c.valid(x != 0):
            raise Zero()

    def go(x):
        n = num_of(x)
        if n is not None:
            return Rat.const(n)
        k = x.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = go(x.arg(0))
            for ch in x.children()[1:]:
                r = r.add(go(ch))
            return r
        if k == z3.Z3_OP_SUB:
            r = go(x.arg(0))
            for ch in x.children()[1:]:
                r = r.add(go(ch).mul(Rat.const(-1)))
            return r
        if k == z3.Z3_OP_UMINUS:
            return go(x.arg(0)).mul(Rat.const(-1))
        if k == z3.Z3_OP_MUL:
            r = Rat.const(1)
            for ch in x.children():
                r = r.mul(go(ch))
            return r
        if k == z3.Z3_OP_DIV:
            nonzero(x.arg(1))
            return go(x.arg(0)).mul(go(x.arg(1)).inv())
        return atom(x)

    try:
        r = go(t).norm()
    except (Zero, OverflowError, ZeroDivisionError, RecursionError):
        return None

    def pz(p):
        s = None
        for m in sorted(p):
            v = p[m]
            x = None
            for a in m:
                x = atoms[a] if x is None else x * atoms[a]
            x = z3.RealVal(v) if x is None else (x if v == 1 else z3.RealVal(v) * x)
            s = x if s is None else s + x
        return z3.RealVal(0) if s is None else s

    def key(p):
        return sorted(p.items(), key=lambda kv: kv[0])

    num = r.one(r.num)
    out = pz(num)
    if r.den:
        d = None
        for f in sorted(r.den, key=lambda f: str(key(f))):
            z = pz(f)
            d = z if d is None else d * z
        out = out / d
    c.keep.append(out)
    c.memo.setdefault("ratof", {})[out.get_id()] = r
    return z3.simplify(out) if not r.den else out


def logmono(t):
    """log of a positive monomial as a sum of logarithms, else None"""
    c = cx()
    r = c.memo.get("ratof", {}).get(t.get_id())
    if r is None:
        r = mono_rat(t)
        if r is None:
            return None
    fs = [(f, 1) for f in r.num] + [(f, -1) for f in r.den]
    fs = [(f, s) for f, s in fs if f != {(): Fraction(1)}]
    if len(fs) < 2 and not (fs and fs[0][1] == -1):
        return None
    atoms = c.memo["ratatoms"]

    def pz(p):
        s = None
        for m in sorted(p):
            x = None
            for a in m:
                x = atoms[a] if x is None else x * atoms[a]
            v = p[m]
            x = z3.RealVal(v) if x is None else (x if v == 1 else z3.RealVal(v) * x)
            s = x if s is None else s + x
        return s

    zs = [(pz(f), s) for f, s in fs]
    if not all(c.valid(z > 0) for z, s in zs):
        return None
    tot = None
    for z, s in zs:
        l = log(SReal(z))
        l = l if s == 1 else -l
        tot = l if tot is None else tot + l
    return tot


def explog(t):
    """exp of an integer combination of logarithms as a monomial, else None"""
    parts = t.children() if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD else [t]
    num = den = None
    for p in parts:
        k = 1
        if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_MUL and p.num_args() == 2 and num_of(p.arg(0)) is not None:
            k, p = num_of(p.arg(0)), p.arg(1)
        if not _is_app(p, "log") or Fraction(k).denominator != 1 or abs(k) > 4:
            return None
        a = p.arg(0)
        if not cx().valid(a > 0):
            return None
        for _ in range(int(abs(k))):
            if k > 0:
                num = a if num is None else num * a
            else:
                den = a if den is None else den * a
    num = z3.RealVal(1) if num is None else num
    return SReal(num if den is None else num / den)


def mono_rat(t):
    if not (z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV)):
        return None
    if ratnorm(t) is None:
        return None
    c = cx()
    rn = ratnorm(t)
    return c.memo["ratof"].get(rn.get_id())


INV = {"exp": "log", "log": "exp", "sinh": "arcsinh", "arcsinh": "sinh"}


def _is_app(t, name):
    return z3.is_app(t) and t.decl().eq(fn(name))


def reg(name, t, dom=True):
    """register name(t), adding the axioms of the function at t; returns the term"""
    c = cx()
    f = fn(name)
    r = f(t)
    apps = c.apps.setdefault(name, {})
    if t.get_id() in apps:
        return r
    old = list(apps.values())
    apps[t.get_id()] = (t, r, dom)
    c.keep += [t, r]
    # the axioms hold unconditionally: not guarded by the hypotheses in force
    hy, c.hyps = c.hyps, []
    try:
        AX[name](c, t, r)
        if name in MONO:
            for (u, ru, du) in old:
                g = band(dom, du)
                if "pair" in c.memo:
                    factored(t, u)
                c.add(z3.And((t < u) == (r < ru), (t == u) == (r == ru)), g)
    finally:
        c.hyps = hy
    return r


def factored(t, u):
    """the order of t and u in terms of the one factor of t - u whose sign is not known"""
    c = cx()
    pair = c.memo.get("pair")
    key = ("fact", t.get_id(), u.get_id())
    if key in c.memo or pair is None:
        return
    if not any(z3.substitute(u, (p, q)).eq(t) or canon(z3.substitute(u, (p, q))).eq(t) for p, q in (pair, pair[::-1])):
        return
    c.memo[key] = True
    d = ratnorm(t - u)
    r = c.memo.get("ratof", {}).get(d.get_id()) if d is not None else None
    if r is None:
        return
    atoms = c.memo["ratatoms"]

    def pz(p):
        s = z3.RealVal(0)
        for m in sorted(p):
            x = z3.RealVal(p[m])
            for a in m:
                x = x * atoms[a]
            s = s + x
        return z3.simplify(s)

    sign, open_ = 1, []
    for f in r.num + r.den:
        z = pz(f)
        if c.valid(z > 0):
            continue
        if c.valid(z < 0):
            sign = -sign
        else:
            open_.append(z)
    if len(open_) == 1:
        z = open_[0] * sign
        c.add((t < u) == (z < 0))
        c.add((t == u) == (z == 0))


def _ax_exp(c, t, r):
    c.add(r > 0)
    c.add(r >= 1 + t)
    c.add(z3.Implies(t == 0, r == 1))
    c.add((t > 0) == (r > 1))
    c.add((t < 0) == (r < 1))
    if not _is_app(t, "log"):
        c.add(fn("log")(r) == t)
        if c.apps.get("log"):
            reg("log", r, True)
    # exp(-u) exp(u) = 1
    for (u, ru, d) in list(c.apps["exp"].values()):
        if u.get_id() != t.get_id():
            if bconst(z3.simplify(u + t == 0, som=True)) is True:
                c.add(r * ru == 1)


def _ax_log(c, t, r):
    pos = t > 0
    c.add(fn("exp")(r) == t, pos)
    c.add(r <= t - 1, pos)
    c.add((t > 1) == (r > 0), pos)
    c.add((t == 1) == (r == 0), pos)
    if not _is_app(t, "exp"):
        apps = c.apps.setdefault("exp", {})
        if r.get_id() not in apps:
            for (u, ru, du) in list(apps.values()):
                c.add(z3.And((r < u) == (t < ru), (r == u) == (t == ru)), pos)
            apps[r.get_id()] = (r, fn("exp")(r), pos)


def _ax_sqrt(c, t, r):
    c.add(z3.And(r >= 0, r * r == t), t >= 0)


def _ax_sinh(c, t, r):
    c.add((t > 0) == (r > 0))
    c.add((t < 0) == (r < 0))
    if not _is_app(t, "arcsinh"):
        c.add(fn("arcsinh")(r) == t)
    for (u, ru, d) in list(c.apps["sinh"].values()):
        if u.get_id() != t.get_id() and bconst(z3.simplify(u + t == 0, som=True)) is True:
            c.add(r == -ru)
    for (u, ru, d) in list(c.apps.get("cosh", {}).values()):
        if u.get_id() == t.get_id():
            c.add(ru * ru - r * r == 1)
        elif bconst(z3.simplify(u + t == 0, som=True)) is True:
            c.add(ru * ru - r * r == 1)


def _ax_arcsinh(c, t, r):
    c.add(fn("sinh")(r) == t)
    c.add((t > 0) == (r > 0))
    c.add((t < 0) == (r < 0))
    for (u, ru, d) in list(c.apps["arcsinh"].values()):
        if u.get_id() != t.get_id() and bconst(z3.simplify(u + t == 0, som=True)) is True:
            c.add(r == -ru)
    if not _is_app(t, "sinh"):
        apps = c.apps.setdefault("sinh", {})
        if r.get_id() not in apps:
            for (u, ru, du) in list(apps.values()):
                c.add(z3.And((r < u) == (t < ru), (r == u) == (t == ru)))
            apps[r.get_id()] = (r, fn("sinh")(r), True)


def _ax_cosh(c, t, r):
    c.add(r >= 1)
    c.add((t == 0) == (r == 1))
    c.add(fn("arccosh")(r) == t, t >= 0)
    c.add(fn("arccosh")(r) == -t, t <= 0)
    for (u, ru, d) in list(c.apps["cosh"].values()):
        if u.get_id() != t.get_id():
            c.add(z3.And((t < u) == (r < ru), (t == u) == (r == ru)), z3.And(t >= 0, u >= 0))
            if bconst(z3.simplify(u + t == 0, som=True)) is True:
                c.add(r == ru)
    for (u, ru, d) in list(c.apps.get("sinh", {}).values()):
        if u.get_id() == t.get_id() or bconst(z3.simplify(u + t == 0, som=True)) is True:
            c.add(r * r - ru * ru == 1)


def _ax_arccosh(c, t, r):
    g = t >= 1
    c.add(z3.And(r >= 0, fn("cosh")(r) == t), g)
    c.add((t == 1) == (r == 0), g)
    reg("cosh", r)


def _ax_tanh(c, t, r):
    c.add(z3.And(r > -1, r < 1))
    c.add((t > 0) == (r > 0))
    c.add((t < 0) == (r < 0))
    c.add(fn("arctanh")(r) == t)


def _ax_arctanh(c, t, r):
    g = z3.And(t > -1, t < 1)
    c.add(fn("tanh")(r) == t, g)
    c.add((t > 0) == (r > 0), g)
    c.add((t == 0) == (r == 0), g)
    reg("tanh", r)


def defined(v):
    """term of a float constant that is a function value, with tight numeric bounds"""
    name, x = DEFS[v]
    c = cx()
    r = reg(name, rv(x))
    e = Fraction(repr(v))
    d = abs(e) * Fraction(1, 10**14)
    key = ("def", v)
    if key not in c.memo:
        c.memo[key] = True
        hy, c.hyps = c.hyps, []
        c.add(z3.And(r > z3.RealVal(e - d), r < z3.RealVal(e + d)))
        c.hyps = hy
    return r


def _ax_none(c, t, r):
    pass


AX = {
    "exp": _ax_exp,
    "log": _ax_log,
    "sqrt": _ax_sqrt,
    "sinh": _ax_sinh,
    "arcsinh": _ax_arcsinh,
    "cosh": _ax_cosh,
    "arccosh": _ax_arccosh,
    "tanh": _ax_tanh,
    "arctanh": _ax_arctanh,
}
MONO = {"exp", "log", "sqrt", "sinh", "arcsinh", "tanh", "arctanh"}


def _const(x):
    """python float when x is a plain numeral"""
    if x.plain:
        n = num_of(z3.simplify(x.v))
        if n is not None:
            return n
    return None


def conc_float(name, x):
    """float result of a function of a float, remembered as a defined constant"""
    import math

    try:
        v = getattr(math, name)(x)
    except (ValueError, OverflowError):
        return None
    if math.isfinite(v) and len(repr(v)) >= 14 and Ctx.cur is not None:
        DEFS.setdefault(v, (name, float(x)))
    return v


def _conc(name, x):
    """the exact cases of concrete arguments"""
    n = _const(x)
    if n is None:
        return None
    exact = {("exp", 0): 1, ("log", 1): 0, ("sqrt", 0): 0, ("sqrt", 1): 1, ("sinh", 0): 0, ("arcsinh", 0): 0, ("cosh", 0): 1, ("tanh", 0): 0, ("arctanh", 0): 0, ("arccosh", 1): 0}
    if (name, n) in exact:
        return lift(float(exact[(name, n)]))
    return None


def _cases(f, x):
    """f of a case distinction, branch by branch"""
    if not (x.plain and z3.is_app_of(x.v, z3.Z3_OP_ITE)):
        return None
    k, a, b = x.v.children()
    c = cx()
    with c.under(k):
        fa = f(SReal(a))
    with c.under(z3.Not(k)):
        fb = f(SReal(b))
    return ite(SBool(k), fa, fb)


def exp(x):
    x = as_real(x)
    k = opaque("exp", x)
    if k is not None:
        return k
    k = _cases(exp, x)
    if k is not None:
        return k
    k = _conc("exp", x)
    if k is not None:
        return k
    t = canon(x.v)
    if _is_app(t, "log") and x.plain:
        u = t.arg(0)
        if cx().valid(u > 0):
            return SReal(u)
    if x.plain:
        l = explog(t)
        if l is not None:
            return l
    r = reg("exp", t)
    if x.plain:
        return SReal(r)
    return SReal(zite(x.ninf, z3.RealVal(0), r), x.nan, x.pinf, False)


def log(x):
    x = as_real(x)
    k = opaque("log", x)
    if k is not None:
        return k
    k = _cases(log, x)
    if k is not None:
        return k
    k = _conc("log", x)
    if k is not None:
        return k
    t = canon(x.v)
    if _is_app(t, "exp") and x.plain:
        return SReal(t.arg(0))
    if x.plain:
        l = logmono(t)
        if l is not None:
            return l
    pos = t > 0
    if x.plain and cx().valid(pos):
        return SReal(reg("log", t, True))
    r = reg("log", t, pos)
    fin = x.finite
    return SReal(
        r,
        prune(bor(x.nan, x.ninf, band(fin, t < 0))),
        x.pinf,
        prune(band(fin, t == 0)),
    )


def sqrt(x):
    x = as_real(x)
    k = opaque("sqrt", x)
    if k is not None:
        return k
    k = _conc("sqrt", x)
    if k is not None:
        return k
    t = canon(x.v)
    r = reg("sqrt", t, t >= 0)
    return SReal(r, prune(bor(x.nan, x.ninf, band(x.finite, t < 0))), x.pinf, False)


def _odd(name, x):
    x = as_real(x)
    k = opaque(name, x)
    if k is not None:
        return k
    k = _conc(name, x)
    if k is not None:
        return k
    t = canon(x.v)
    if x.plain:
        if name in INV and _is_app(t, INV[name]):
            return SReal(t.arg(0))
        k, a = multiple(t)
        if name == "arcsinh" and k == -1 and _is_app(a, "sinh"):
            return SReal(-a.arg(0))
        if name == "sinh" and k == -1 and _is_app(a, "arcsinh"):
            return SReal(-a.arg(0))
        if name == "sinh" and abs(k) == 2 and len(a.children()) < 2:
            # sinh(2 a) = 2 sinh(a) cosh(a)
            r = SReal(2 * sinh(SReal(a)).v * cosh(SReal(a)).v)
            return r if k > 0 else -r
        nt = canon(-t)
        apps = cx().apps.get(name, {})
        if t.get_id() not in apps and nt.get_id() in apps:
            return SReal(-fn(name)(nt))
    return SReal(reg(name, t), x.nan, x.pinf, x.ninf)


def opaque(name, x):
    """f(x) as an arbitrary function of x"""
    if cx().memo.get("opaque") and x.plain and _const(x) is None:
        return SReal(fn(name)(z3.simplify(x.v)))
    return None


def multiple(t):
    """(k, a) with t = k * a for a numeral k"""
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_MUL and t.num_args() == 2 and num_of(t.arg(0)) is not None:
            return num_of(t.arg(0)), t.arg(1)
        if t.decl().kind() == z3.Z3_OP_UMINUS:
            return -1, t.arg(0)
    return 1, t


def sinh(x):
    return _odd("sinh", x)


def arcsinh(x):
    return _odd("arcsinh", x)


def cosh(x):
    x = as_real(x)
    k = opaque("cosh", x)
    if k is not None:
        return k
    k = _conc("cosh", x)
    if k is not None:
        return k
    t = canon(x.v)
    if x.plain:
        if _is_app(t, "arccosh") and cx().valid(t.arg(0) >= 1):
            return SReal(t.arg(0))
        k, a = multiple(t)
        if k == -1:
            return cosh(SReal(a))
    return SReal(reg("cosh", canon(x.v)), x.nan, bor(x.pinf, x.ninf), False)


def arccosh(x):
    x = as_real(x)
    k = opaque("arccosh", x)
    if k is not None:
        return k
    k = _conc("arccosh", x)
    if k is not None:
        return k
    t = canon(x.v)
    if x.plain:
        if _is_app(t, "cosh"):
            if cx().valid(t.arg(0) >= 0):
                return SReal(t.arg(0))
            if cx().valid(t.arg(0) <= 0):
                return SReal(-t.arg(0))
        if cx().valid(t >= 1):
            return SReal(reg("arccosh", t))
    return SReal(reg("arccosh", t), prune(bor(x.nan, x.ninf, band(x.finite, t < 1))), x.pinf, False)


def tanh(x):
    x = as_real(x)
    k = _conc("tanh", x)
    if k is not None:
        return k
    r = reg("tanh", canon(x.v))
    if x.plain:
        return SReal(r)
    return SReal(zite(x.pinf, rv(1), zite(x.ninf, rv(-1), r)), x.nan)


def arctanh(x):
    x = as_real(x)
    k = _conc("arctanh", x)
    if k is not None:
        return k
    t = canon(x.v)
    g = z3.And(t > -1, t < 1)
    fin = x.finite
    return SReal(
        reg("arctanh", t, g),
        prune(bor(bnot(fin), band(fin, z3.Or(t < -1, t > 1)))),
        prune(band(fin, t == 1)),
        prune(band(fin, t == -1)),
    )


def expm1(x):
    return arith("-", exp(x), 1.0)


def log1p(x):
    return log(arith("+", x, 1.0))


def ipow(base, n):
    """base ** n for an integer constant base >= 2 and symbolic n >= 0"""
    c = cx()
    f = fn("ipow%d" % base, IS, IS)
    t = z3.simplify(n.e)
    r = f(t)
    apps = c.apps.setdefault("ipow%d" % base, {})
    if t.get_id() not in apps:
        old = list(apps.values())
        apps[t.get_id()] = (t, r)
        c.keep += [t, r]
        c.add(r >= 1, t >= 0)
        c.add(z3.Implies(t == 0, r == 1))
        c.add(r >= t + 1, t >= 0)
        for (u, ru) in old:
            c.add((t < u) == (r < ru), z3.And(t >= 0, u >= 0))
            c.add(z3.Implies(t == u + 1, r == base * ru), u >= 0)
            c.add(z3.Implies(u == t + 1, ru == base * r), t >= 0)
    if not c.valid(t >= 0):
        raise Unsupported("negative integer power")
    return SInt(r)


def power(a, b):
    """a ** b for real exponents: exp(b log a), a > 0"""
    if not (a.plain and cx().valid(a.v > 0)):
        raise Unsupported("real power of a possibly non-positive number")
    return exp(arith("*", b, log(a)))


def floor(x):
    x = as_real(x)
    return SReal(toreal(z3.ToInt(x.v)), x.nan, x.pinf, x.ninf)


def ceil(x):
    x = as_real(x)
    return SReal(-toreal(z3.ToInt(-x.v)), x.nan, x.pinf, x.ninf)


def rint(x):
    """round half to even"""
    x = as_real(x)
    k = int_expr(x.v)
    if k is not None:
        return SReal(toreal(k), x.nan, x.pinf, x.ninf)
    f = z3.ToInt(x.v + z3.RealVal("1/2"))
    half = toreal(f) == x.v + z3.RealVal("1/2")
    r = z3.If(z3.And(half, f % 2 == 1), f - 1, f)
    return SReal(toreal(r), x.nan, x.pinf, x.ninf)


def sign(x):
    x = lift(x)
    if isinstance(x, SReal):
        if x.plain and cx().memo.get("decide"):
            t = canon(x.v)
            return ite(t > 0, SReal(rv(1)), ite(t < 0, SReal(rv(-1)), SReal(rv(0))))
        v = z3.If(x.v > 0, rv(1), z3.If(x.v < 0, rv(-1), rv(0)))
        v = zite(x.pinf, rv(1), zite(x.ninf, rv(-1), v))
        return SReal(v, x.nan)
    e = as_int_scalar(x).e
    return SInt(z3.If(e > 0, z3.IntVal(1), z3.If(e < 0, z3.IntVal(-1), z3.IntVal(0))))


def _is_app2(t, name):
    return z3.is_app(t) and t.decl().name() == name
