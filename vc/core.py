"""Symbolic scalars, path exploration and the fact store of one path.

Numbers are mathematical: SInt is a z3 Int, SReal is a z3 Real plus three flags
(nan, +inf, -inf).  A flag is a Python bool or a z3 Bool.  Signed zero is not
modelled (x/0 is +inf for x>0 and -inf for x<0).
"""
import math
import sys
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402


# float constants known to be function values: value -> (function, argument)
DEFS = {}


class Unsupported(BaseException):
    """The engine cannot express an operation: the obligation stays undecided."""


class PathEnd(BaseException):
    """The current path is closed (infeasible, or cut at a loop)."""


class Restart(BaseException):
    """Loop invariants were weakened: the exploration starts again."""


# ---------------------------------------------------------------- z3 helpers
def is_z3(x):
    return isinstance(x, z3.ExprRef)


def bconst(x):
    """Python bool of a constant z3/py bool or None."""
    if isinstance(x, bool):
        return x
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return None


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def bnot(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def band(*xs):
    out = []
    for x in xs:
        c = bconst(x)
        if c is False:
            return False
        if c is None:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        c = bconst(x)
        if c is True:
            return True
        if c is None:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def bite(c, a, b):
    k = bconst(c)
    if k is not None:
        return a if k else b
    if isinstance(a, bool) and isinstance(b, bool) and a == b:
        return a
    if a is b:
        return a
    return bor(band(c, a), band(bnot(c), b))


def zite(c, a, b):
    k = bconst(c)
    if k is not None:
        return a if k else b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def rv(x):
    """exact z3 real of a python number (decimal reading of floats)"""
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        return z3.RealVal(Fraction(repr(x)))
    return z3.RealVal(x)


def num_of(t):
    """Fraction of a z3 numeral, else None"""
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def toreal(t):
    if t.is_int():
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t


# ------------------------------------------------------------- the context
class Ctx:
    """Facts, obligations and decisions of one path."""

    cur = None

    def __init__(self, prefix, explorer):
        self.prefix = list(prefix)
        self.taken = []
        self.ex = explorer
        self.facts = []
        self.hyps = []
        self.solver = z3.Solver()
        self.solver.set("timeout", explorer.feas_ms)
        self.nfresh = {}
        self.obls = []
        self.defs = set()
        self.universals = []
        self.terms = []
        self.term_ids = {}
        self.apps = {}
        self.memo = {}
        self.keep = []
        self.depth_inst = 0
        self.active = []  # ids of the generic indices bound at the moment
        self.fork_ok = 0
        self.covers = []
        self.inputs = []
        self.notes = []
        self.solver_time = 0.0
        self.fpids = set()
        self.entail_memo = {}

    # -- naming
    def fresh(self, base, sort="R"):
        k = self.nfresh.get(base, 0)
        self.nfresh[base] = k + 1
        nm = f"{base}!{k}"
        return {"R": z3.Real, "I": z3.Int, "B": z3.Bool}[sort](nm)

    def dep(self, base, sort, *exprs):
        """a fresh value that depends on the generic indices the expressions contain"""
        from .sums import contains

        others = [v for i, v in self.memo.get("iotas", {}).items() if any(is_z3(e) and contains(e, frozenset([i])) for e in exprs)]
        if not others:
            return self.fresh(base, sort)
        return self.func(base, *(["I"] * len(others)), sort)(*others)

    def func(self, base, *sorts):
        k = self.nfresh.get(base, 0)
        self.nfresh[base] = k + 1
        m = {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}
        return z3.Function(f"{base}!{k}", *[m[s] for s in sorts])

    # -- facts
    def add(self, f, guard=True):
        f = bconst(f) if bconst(f) is not None else f
        if f is True:
            return
        hyp = band(*self.hyps, guard) if (self.hyps or guard is not True) else True
        if hyp is not True:
            if hyp is False:
                return
            f = z3.Implies(zb(hyp), zb(f))
        else:
            f = zb(f)
        i = f.get_id()
        if i in self.fpids:
            return
        self.fpids.add(i)
        self.facts.append(f)
        self.solver.add(f)
        self.entail_memo.clear()

    def _check(self, *extra):
        import time

        t = time.time()
        r = self.solver.check(*[zb(e) for e in extra], *[zb(h) for h in self.hyps])
        self.solver_time += time.time() - t
        return r

    def unsat(self, cond):
        """cond is impossible here (False if unknown)"""
        c = bconst(cond)
        if c is not None:
            return not c
        c = z3.simplify(cond)
        k = bconst(c)
        if k is not None:
            return not k
        key = (c.get_id(), tuple(zb(h).get_id() for h in self.hyps))
        if key in self.entail_memo:
            return self.entail_memo[key]
        self.keep.append(c)
        r = self._check(c) == z3.unsat
        self.entail_memo[key] = r
        return r

    def valid(self, cond):
        return self.unsat(bnot(cond))

    def under(self, *conds):
        return _Under(self, conds)

    def branch(self, cond):
        c = bconst(cond)
        if c is not None:
            return c
        c = z3.simplify(cond)
        k = bconst(c)
        if k is not None:
            return k
        if len(self.taken) < len(self.prefix):
            d = self.prefix[len(self.taken)]
            self.taken.append(d)
            if d in (0, 1):
                self.add(c if d else z3.Not(c))
            return bool(d)
        if self.hyps or self.fork_ok < 0:
            if self.unsat(c):
                return False
            if self.valid(c):
                return True
            raise Unsupported("branch inside an element function: %s" % c)
        t = self._check(c)
        if t == z3.unsat:
            d = 0
        else:
            f = self._check(z3.Not(c))
            if f == z3.unsat:
                d = 1
            else:
                d = 1
                self.ex.push(self.taken + [0])
        self.taken.append(d)
        self.add(c if d else z3.Not(c))
        return bool(d)

    def choose(self, label="", n=2):
        """non-deterministic choice (both alternatives are explored)"""
        if len(self.taken) < len(self.prefix):
            d = self.prefix[len(self.taken)]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.ex.push(self.taken + [("c", k)])
            d = ("c", 0)
        self.taken.append(d)
        return d[1]

    # -- index terms and universals
    def register(self, t, gen=0):
        if isinstance(t, int):
            t = z3.IntVal(t)
        i = t.get_id()
        if i in self.term_ids:
            return
        if self.depth_inst > 2:
            return
        self.term_ids[i] = t
        self.terms.append(t)
        self.depth_inst += 1
        k = len(self.active)
        self.active.extend(self.iotas_in(t))
        try:
            for u, act in list(self.universals):
                self.active.extend(act)
                u(t)
                del self.active[len(self.active) - len(act) :]
        finally:
            self.depth_inst -= 1
            del self.active[k:]

    def universal(self, u):
        """u(t) adds the instance at index term t"""
        self.universals.append((u, list(self.active)))
        self.depth_inst += 1
        k = len(self.active)
        try:
            for t in list(self.terms):
                self.active.extend(self.iotas_in(t))
                u(t)
                del self.active[k:]
        finally:
            self.depth_inst -= 1
            del self.active[k:]

    def bare(self):
        return _Bare(self)

    def iotas_in(self, *exprs):
        from .sums import contains

        return [i for i in self.memo.get("iotas", {}) if any(is_z3(e) and contains(e, frozenset([i])) for e in exprs)]

    def no_outer(self, own, *exprs):
        """what is built from these expressions must not depend on another index bound at the moment"""
        for i in self.iotas_in(*exprs):
            if i in self.active and i != own.get_id():
                raise Unsupported("selection that depends on an index bound outside")

    # -- obligations
    def ensure(self, name, goal):
        g = bconst(goal)
        if g is True:
            self.obls.append((name, None, len(self.facts), "syntactic"))
            return
        self.obls.append((name, zb(goal), len(self.facts), None))


class _Bare:
    """facts that hold whatever the current assumptions are"""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        self.hyps, self.ctx.hyps = self.ctx.hyps, []

    def __exit__(self, *a):
        self.ctx.hyps = self.hyps


class _Under:
    def __init__(self, ctx, conds):
        self.ctx, self.conds = ctx, [c for c in conds if bconst(c) is not True]

    def __enter__(self):
        self.ctx.hyps.extend(self.conds)
        self.k = len(self.ctx.active)
        io = self.ctx.memo.get("iotas")
        if io:
            for x in self.conds:
                self._bind(x, io)

    def _bind(self, x, io):
        if not is_z3(x):
            return
        if z3.is_and(x):
            for y in x.children():
                self._bind(y, io)
        else:
            for y in x.children()[:2]:
                if y.get_id() in io:
                    self.ctx.active.append(y.get_id())

    def __exit__(self, *a):
        del self.ctx.active[self.k :]
        for _ in self.conds:
            self.ctx.hyps.pop()


def cx():
    return Ctx.cur


def prune(flag):
    if isinstance(flag, bool):
        return flag
    c = cx()
    if c.unsat(flag):
        return False
    return flag


# ---------------------------------------------------------------- scalars
class Sym:
    __slots__ = ()
    __array_priority__ = 1000
    __array_ufunc__ = None

    def item(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        import numpy as np

        return np.dtype({SReal: "float64", SInt: "int64", SBool: "bool"}[type(self)])

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def copy(self):
        return self


def _is_num(x):
    import numpy as np

    return isinstance(x, (int, float, Fraction, np.integer, np.floating, np.bool_))


def lift(x):
    """python/numpy scalar or symbolic scalar -> symbolic scalar"""
    if isinstance(x, Sym):
        return x
    import numpy as np

    if isinstance(x, (bool, np.bool_)):
        return SBool(z3.BoolVal(bool(x)))
    if isinstance(x, (int, np.integer)):
        return SInt(z3.IntVal(int(x)))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return SReal(z3.RealVal(0), nan=True)
        if math.isinf(x):
            return SReal(z3.RealVal(0), pinf=x > 0, ninf=x < 0)
        if x in DEFS or -x in DEFS:
            from . import trans

            return SReal(trans.defined(x)) if x in DEFS else SReal(-trans.defined(-x))
        return SReal(rv(x))
    if isinstance(x, Fraction):
        return SReal(z3.RealVal(x))
    if isinstance(x, z3.ArithRef):
        return SInt(x) if x.is_int() else SReal(x)
    if isinstance(x, z3.BoolRef):
        return SBool(x)
    if hasattr(x, "as_scalar"):
        return x.as_scalar()
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    raise Unsupported("not a scalar: %r" % type(x))


def is_scalar(x):
    return isinstance(x, (Sym, z3.ExprRef)) or _is_num(x)


def simp(x):
    """concrete python value when the symbolic scalar is constant, else itself"""
    if not isinstance(x, Sym):
        return x
    if isinstance(x, SBool):
        c = bconst(z3.simplify(x.e))
        return x if c is None else c
    if isinstance(x, SInt):
        t = z3.simplify(x.e)
        return t.as_long() if z3.is_int_value(t) else x
    return x


class SBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = zb(e)

    def __bool__(self):
        return cx().branch(self.e)

    def __invert__(self):
        return SBool(bnot(self.e))

    def __and__(self, o):
        return _bop(self, o, band)

    __rand__ = __and__

    def __or__(self, o):
        return _bop(self, o, bor)

    __ror__ = __or__

    def __xor__(self, o):
        return _bop(self, o, lambda a, b: z3.Xor(zb(a), zb(b)))

    __rxor__ = __xor__

    def __eq__(self, o):
        return cmp("==", self, o)

    def __ne__(self, o):
        return cmp("!=", self, o)

    def __hash__(self):
        return id(self)

    def _i(self):
        c = bconst(self.e)
        if c is not None:
            return SInt(z3.IntVal(int(c)))
        return SInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __repr__(self):
        return "SBool(%s)" % self.e

    def any(self, *a, **k):
        return self

    all = any

    def astype(self, t):
        return cast(self, t)


def _arith_methods(cls):
    for nm, op in [
        ("add", "+"),
        ("sub", "-"),
        ("mul", "*"),
        ("truediv", "/"),
        ("floordiv", "//"),
        ("mod", "%"),
        ("pow", "**"),
    ]:

        def f(self, o, op=op):
            if not is_scalar(o):
                return NotImplemented
            return arith(op, self, o)

        def g(self, o, op=op):
            if not is_scalar(o):
                return NotImplemented
            return arith(op, o, self)

        setattr(cls, f"__{nm}__", f)
        setattr(cls, f"__r{nm}__", g)
    for nm, op in [("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")]:

        def h(self, o, op=op):
            if not is_scalar(o):
                if op in ("==", "!=") and (o is None or isinstance(o, (str, tuple))):
                    return op == "!="
                return NotImplemented
            return cmp(op, self, o)

        setattr(cls, f"__{nm}__", h)
    cls.__hash__ = lambda self: id(self)
    cls.__neg__ = lambda self: arith("-", 0, self)
    cls.__pos__ = lambda self: self
    cls.__abs__ = lambda self: sabs(self)
    cls.__bool__ = lambda self: cx().branch(truth(self).e)
    return cls


@_arith_methods
class SInt(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = z3.IntVal(e) if isinstance(e, int) else e

    def __index__(self):
        t = z3.simplify(self.e)
        if z3.is_int_value(t):
            return t.as_long()
        # enumerate when the value is forced
        raise Unsupported("symbolic integer used as a Python index: %s" % t)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __repr__(self):
        return "SInt(%s)" % self.e

    def __and__(self, o):
        return _bitop(self, o, "&")

    __rand__ = __and__

    def __or__(self, o):
        return _bitop(self, o, "|")

    __ror__ = __or__

    def __xor__(self, o):
        return _bitop(self, o, "^")

    def __invert__(self):
        return arith("-", arith("-", 0, self), 1)

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (2**o)
        raise Unsupported("shift")

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (2**o)
        raise Unsupported("shift")

    def astype(self, t):
        return cast(self, t)


@_arith_methods
class SReal(Sym):
    __slots__ = ("v", "nan", "pinf", "ninf")

    def __init__(self, v, nan=False, pinf=False, ninf=False):
        self.v, self.nan, self.pinf, self.ninf = v, nan, pinf, ninf

    def __round__(self, d=None):
        if not self.plain:
            raise Unsupported("round of a value that may not be finite")
        c = cx()
        k = c.dep("rnd", "I", self.v)
        q = 10 ** (d or 0)
        r = z3.ToReal(k) / q
        c.add(z3.And(2 * q * (self.v - r) <= 1, 2 * q * (r - self.v) <= 1))
        return SInt(k) if d is None else SReal(r)

    @property
    def plain(self):
        return self.nan is False and self.pinf is False and self.ninf is False

    @property
    def finite(self):
        return bnot(bor(self.nan, self.pinf, self.ninf))

    def __float__(self):
        t = z3.simplify(self.v)
        n = num_of(t)
        if n is not None and self.plain:
            return float(n)
        raise Unsupported("symbolic real used as a Python float: %s" % t)

    def __repr__(self):
        return "SReal(%s%s)" % (self.v, "" if self.plain else ", flags")

    def astype(self, t):
        return cast(self, t)

    def is_integer(self):
        return SBool(band(self.finite, z3.IsInt(self.v)))

    def sum(self, *a, **k):
        return self

    mean = sum


def truth(x):
    x = lift(x)
    if isinstance(x, SBool):
        return x
    return cmp("!=", x, 0)


def _bop(a, b, f):
    b = b if isinstance(b, Sym) else None if not _is_num(b) else lift(b)
    if b is None:
        return NotImplemented
    if isinstance(b, SBool):
        return SBool(f(a.e, b.e))
    if isinstance(b, SInt):
        return _bitop(a._i(), b, {band: "&", bor: "|"}.get(f, "^"))
    return NotImplemented


def _bitop(a, b, op):
    """bit operation with one constant operand, bits by div/mod"""
    if not is_scalar(b):
        return NotImplemented
    a, b = lift(a), lift(b)
    if isinstance(b, SBool):
        b = b._i()
    if isinstance(a, SBool):
        a = a._i()
    if not isinstance(b, SInt):
        raise TypeError("unsupported operand type(s) for bit operation")
    ca, cb = num_of(z3.simplify(a.e)), num_of(z3.simplify(b.e))
    if ca is not None and cb is not None:
        import operator

        f = {"&": operator.and_, "|": operator.or_, "^": operator.xor}[op]
        return SInt(z3.IntVal(f(int(ca), int(cb))))
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb is None:
        raise Unsupported("bit operation on two symbolic integers")
    c = int(cb)

    def bit(k):
        return (a.e / z3.IntVal(2**k)) % 2

    width = c.bit_length()
    if c >= 0:
        s = z3.IntVal(0)
        for k in range(width):
            if c >> k & 1:
                s = s + bit(k) * (2**k)
        s = z3.simplify(s)
        if op == "&":
            return SInt(s)
        if op == "|":
            return SInt(a.e + c - s)
        return SInt(a.e + c - 2 * s)
    if op == "&":  # a & ~m  = a - (a & m)
        m = _bitop(a, lift(~c), "&")
        return SInt(a.e - m.e)
    raise Unsupported("bit operation with a negative constant")


def as_real(x):
    x = lift(x)
    if isinstance(x, SReal):
        return x
    if isinstance(x, SBool):
        x = x._i()
    return SReal(toreal(x.e))


def as_int_scalar(x):
    x = lift(x)
    if isinstance(x, SBool):
        return x._i()
    if isinstance(x, SReal):
        n = num_of(z3.simplify(x.v))
        raise Unsupported("real used as an integer index")
    return x


def ite(c, a, b):
    """scalar if-then-else"""
    c = c.e if isinstance(c, SBool) else c
    k = bconst(c)
    if k is None:
        k = bconst(z3.simplify(c))
    if k is not None:
        return a if k else b
    if a is b:
        return a
    if Ctx.cur is not None and Ctx.cur.memo.get("decide"):
        c0 = Ctx.cur
        c1 = z3.simplify(c, som=True)
        if c0.valid(bnot(c1)):
            return b
        if c0.valid(c1):
            return a
    a, b = lift(a), lift(b)
    if isinstance(a, SBool) and isinstance(b, SBool):
        return SBool(bite(c, a.e, b.e))
    if isinstance(a, SReal) or isinstance(b, SReal):
        a, b = as_real(a), as_real(b)
        fl = []
        for fa, fb in ((a.nan, b.nan), (a.pinf, b.pinf), (a.ninf, b.ninf)):
            f = bite(c, fa, fb)
            fl.append(prune(f))
        return SReal(zite(c, a.v, b.v), *fl)
    a, b = as_int_scalar(a), as_int_scalar(b)
    return SInt(zite(c, a.e, b.e))


def cmp(op, a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, SBool) and isinstance(b, SBool) and op in ("==", "!="):
        e = a.e == b.e
        return SBool(z3.simplify(e if op == "==" else z3.Not(e)))
    if not isinstance(a, SReal) and not isinstance(b, SReal):
        x, y = as_int_scalar(a).e, as_int_scalar(b).e
        return SBool(_zcmp(op, x, y))
    a, b = as_real(a), as_real(b)
    if a.plain and b.plain:
        return SBool(_zcmp(op, a.v, b.v))
    fin = band(a.finite, b.finite)
    nonan = bnot(bor(a.nan, b.nan))
    if op == "!=":
        return SBool(bnot(cmp("==", a, b).e))
    if op == "==":
        e = bor(band(fin, a.v == b.v), band(nonan, bor(band(a.pinf, b.pinf), band(a.ninf, b.ninf))))
    elif op == "<":
        e = band(nonan, bor(band(fin, a.v < b.v), band(a.ninf, bnot(b.ninf)), band(b.pinf, bnot(a.pinf))))
    elif op == "<=":
        e = band(nonan, bor(band(fin, a.v <= b.v), a.ninf, b.pinf))
    elif op == ">":
        return cmp("<", b, a)
    else:
        return cmp("<=", b, a)
    return SBool(e)


def _zcmp(op, x, y):
    if op == "==":
        r = x == y
    elif op == "!=":
        r = x != y
    elif op == "<":
        r = x < y
    elif op == "<=":
        r = x <= y
    elif op == ">":
        r = x > y
    else:
        r = x >= y
    if isinstance(r, bool):
        return r
    if num_of(x) is not None and num_of(y) is not None:
        return bconst(z3.simplify(r))
    return r


def zadd(x, y):
    nx, ny = num_of(x), num_of(y)
    if nx is not None and nx == 0 and x.sort() == y.sort():
        return y
    if ny is not None and ny == 0 and x.sort() == y.sort():
        return x
    if nx is not None and ny is not None:
        return z3.simplify(x + y)
    return x + y


def zmul(x, y):
    nx, ny = num_of(x), num_of(y)
    if nx is not None and ny is not None:
        return z3.simplify(x * y)
    if nx is not None:
        if nx == 1:
            return y
        if nx == 0:
            return x
    if ny is not None:
        if ny == 1:
            return x
        if ny == 0:
            return y
    return x * y


def arith(op, a, b):
    a, b = lift(a), lift(b)
    if op == "**":
        return spow(a, b)
    if op == "/":
        return sdiv(as_real(a), as_real(b))
    if not isinstance(a, SReal) and not isinstance(b, SReal):
        x, y = as_int_scalar(a).e, as_int_scalar(b).e
        if op == "+":
            return SInt(zadd(x, y))
        if op == "-":
            return SInt(z3.simplify(x - y) if num_of(x) is not None and num_of(y) is not None else (x if num_of(y) == 0 else x - y))
        if op == "*":
            return SInt(zmul(x, y))
        if op in ("//", "%"):
            if num_of(y) is None or num_of(y) <= 0:
                if cx().branch(y == 0):
                    e = ZeroDivisionError("integer division by zero")
                    e._vc = True
                    raise e
                if not cx().valid(y > 0):
                    raise Unsupported("integer division by a possibly negative number")
            q = x / y if op == "//" else x % y
            return SInt(z3.simplify(q) if num_of(x) is not None and num_of(y) is not None else q)
    a, b = as_real(a), as_real(b)
    if op in ("//", "%"):
        if not (b.pinf is False and b.ninf is False):
            raise Unsupported("integer division by possibly infinite values")
        q = sdiv(a, b)
        if not a.plain:
            inf = bor(a.pinf, a.ninf)
            q = SReal(q.v, bor(q.nan, inf), band(q.pinf, bnot(inf)), band(q.ninf, bnot(inf)))
        if cx().memo.get("loose_mod"):
            # only the range of the remainder is kept; refutations without replay are then not reported
            c, m, k = cx(), cx().fresh("mod", "R"), cx().fresh("quot", "I")
            pos = z3.And(b.v > 0, z3.Not(zb(bor(q.nan, bor(q.pinf, q.ninf)))))
            c.add(z3.Implies(pos, z3.And(m >= 0, m < b.v, z3.Implies(z3.And(a.v >= 0, a.v < b.v), m == a.v))))
            c.memo["abstracted"] = True
            if op == "%":
                return SReal(m, q.nan, q.pinf, q.ninf)
            return SReal(toreal(k), q.nan, q.pinf, q.ninf)
        fl = SReal(toreal(z3.ToInt(q.v)), q.nan, q.pinf, q.ninf)
        if op == "//":
            return fl
        return a - b * fl
    if op == "-":
        b = SReal(z3.simplify(-b.v), b.nan, b.ninf, b.pinf)
        op = "+"
    if op == "+":
        v = zadd(a.v, b.v)
        if a.plain and b.plain:
            return SReal(v)
        nan = bor(a.nan, b.nan, band(a.pinf, b.ninf), band(a.ninf, b.pinf))
        return SReal(
            v,
            prune(nan),
            prune(band(bnot(nan), bor(a.pinf, b.pinf))),
            prune(band(bnot(nan), bor(a.ninf, b.ninf))),
        )
    if op == "*":
        v = zmul(a.v, b.v)
        if a.plain and b.plain:
            return SReal(v)
        ai, bi = bor(a.pinf, a.ninf), bor(b.pinf, b.ninf)
        az, bz = band(a.finite, a.v == 0), band(b.finite, b.v == 0)
        nan = prune(bor(a.nan, b.nan, band(ai, bz), band(bi, az)))
        pa, pb = bor(a.pinf, band(a.finite, a.v > 0)), bor(b.pinf, band(b.finite, b.v > 0))
        inf = band(bnot(nan), bor(ai, bi))
        same = bor(band(pa, pb), band(bnot(pa), bnot(pb)))
        return SReal(v, nan, prune(band(inf, same)), prune(band(inf, bnot(same))))
    raise Unsupported(op)


def sdiv(a, b):
    n = num_of(b.v)
    if a.plain and b.plain:
        if n is not None and n != 0:
            return SReal(zmul(a.v, z3.RealVal(1 / n)))
        z = False if Ctx.cur.memo.get("opaque") else prune(b.v == 0)
        v = a.v / b.v if num_of(a.v) != 0 else a.v
        if z is False:
            return SReal(v)
        return SReal(
            v, prune(band(z, a.v == 0)), prune(band(z, a.v > 0)), prune(band(z, a.v < 0))
        )
    bz = band(b.finite, b.v == 0)
    bi, ai = bor(b.pinf, b.ninf), bor(a.pinf, a.ninf)
    nan = prune(bor(a.nan, b.nan, band(ai, bi), band(bz, a.finite, a.v == 0)))
    pa = bor(a.pinf, band(a.finite, a.v > 0))
    pb = bor(b.pinf, band(b.finite, b.v >= 0))
    inf = band(bnot(nan), bor(ai, bz))
    same = bor(band(pa, pb), band(bnot(pa), bnot(pb)))
    v = zite(bi, z3.RealVal(0), a.v / b.v)
    return SReal(v, nan, prune(band(inf, same)), prune(band(inf, bnot(same))))


def spow(a, b):
    nb = num_of(z3.simplify(b.v if isinstance(b, SReal) else b.e)) if not isinstance(b, SBool) else None
    if nb is not None and (not isinstance(b, SReal) or b.plain):
        if nb.denominator == 1 and 0 <= nb <= 6:
            if nb == 0:
                return lift(1) if isinstance(a, SInt) and isinstance(b, SInt) else lift(1.0)
            r = a
            for _ in range(int(nb) - 1):
                r = arith("*", r, a)
            return as_real(r) if isinstance(b, SReal) else r
        if nb == Fraction(1, 2):
            from . import trans

            return trans.sqrt(a)
        if nb.denominator == 1 and -6 <= nb < 0:
            return arith("/", 1.0, spow(a, lift(int(-nb))))
    na = num_of(z3.simplify(a.e)) if isinstance(a, SInt) else None
    if na is not None and isinstance(b, SInt):
        from . import trans

        return trans.ipow(int(na), b)
    from . import trans

    return trans.power(as_real(a), as_real(b))


def sabs(a):
    a = lift(a)
    if isinstance(a, SBool):
        return a
    if isinstance(a, SInt):
        return SInt(z3.If(a.e < 0, -a.e, a.e))
    return SReal(z3.simplify(z3.If(a.v < 0, -a.v, a.v)), a.nan, bor(a.pinf, a.ninf), False)


def isnan(a):
    a = lift(a)
    return SBool(a.nan) if isinstance(a, SReal) else SBool(False)


def isfinite(a):
    a = lift(a)
    return SBool(a.finite) if isinstance(a, SReal) else SBool(True)


def isinf(a):
    a = lift(a)
    return SBool(bor(a.pinf, a.ninf)) if isinstance(a, SReal) else SBool(False)


def smax(a, b):
    """numpy maximum: nan propagates"""
    a, b = lift(a), lift(b)
    if isinstance(a, SReal) or isinstance(b, SReal):
        a, b = as_real(a), as_real(b)
        r = ite(cmp(">=", a, b), a, b)
        if a.nan is False and b.nan is False:
            return r
        return SReal(r.v, prune(bor(a.nan, b.nan)), prune(band(r.pinf, bnot(bor(a.nan, b.nan)))), prune(band(r.ninf, bnot(bor(a.nan, b.nan)))))
    return ite(cmp(">=", a, b), a, b)


def smin(a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, SReal) or isinstance(b, SReal):
        a, b = as_real(a), as_real(b)
        r = ite(cmp("<=", a, b), a, b)
        if a.nan is False and b.nan is False:
            return r
        return SReal(r.v, prune(bor(a.nan, b.nan)), prune(band(r.pinf, bnot(bor(a.nan, b.nan)))), prune(band(r.ninf, bnot(bor(a.nan, b.nan)))))
    return ite(cmp("<=", a, b), a, b)


def trunc_int(a):
    """int() of a finite real"""
    e = int_expr(a.v)
    if e is not None:
        return SInt(e)
    f = z3.ToInt(a.v)
    return SInt(z3.If(a.v >= 0, f, -z3.ToInt(-a.v)))


def int_expr(e, depth=0):
    """an integer term equal to the real term e, or None when e is not evidently integral"""
    if depth > 40:
        return None
    if z3.is_rational_value(e):
        return z3.IntVal(e.numerator_as_long()) if e.denominator_as_long() == 1 else None
    if not z3.is_app(e):
        return None
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return e.arg(0)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        xs = [int_expr(x, depth + 1) for x in e.children()]
        if any(x is None for x in xs):
            return None
        if k == z3.Z3_OP_UMINUS:
            return -xs[0]
        r = xs[0]
        for x in xs[1:]:
            r = r + x if k == z3.Z3_OP_ADD else r * x if k == z3.Z3_OP_MUL else r - x
        return r
    if k == z3.Z3_OP_ITE:
        a, b = int_expr(e.arg(1), depth + 1), int_expr(e.arg(2), depth + 1)
        return None if a is None or b is None else z3.If(e.arg(0), a, b)
    if e.get_id() in cx().memo.get("integral", {}):
        return z3.ToInt(e)
    return None


def cast(x, t):
    import numpy as np

    x = lift(x)
    k = np.dtype(t).kind if t is not object else "O"
    if k == "f":
        return as_real(x)
    if k == "b":
        return truth(x)
    if k in "iu":
        if isinstance(x, SReal):
            if not x.plain and not cx().valid(x.finite):
                # C cast of nan/inf: an unspecified integer
                u = cx().dep("cast", "I", x.v, x.nan, x.pinf, x.ninf)
                return SInt(z3.If(zb(x.finite), trunc_int(x).e, u))
            return trunc_int(x)
        return as_int_scalar(x)
    return x


def same(a, b):
    """identical values (nan equals nan): used by specifications"""
    a, b = lift(a), lift(b)
    if isinstance(a, SBool) or isinstance(b, SBool):
        if isinstance(a, SBool) and isinstance(b, SBool):
            return SBool(a.e == b.e)
    if isinstance(a, SReal) or isinstance(b, SReal):
        a, b = as_real(a), as_real(b)
        if a.plain and b.plain:
            return SBool(a.v == b.v)
        fl = [zb(fa) == zb(fb) for fa, fb in ((a.nan, b.nan), (a.pinf, b.pinf), (a.ninf, b.ninf)) if not (fa is False and fb is False)]
        return SBool(band(*[z3.simplify(f) for f in fl], bor(bnot(a.finite), a.v == b.v)))
    return cmp("==", a, b)
