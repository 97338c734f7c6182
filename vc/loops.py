"""Loops of the instrumented copy: concrete ones run natively, `for` loops over
symbolic ranges are executed once for a generic iteration, `while` loops are cut
at inferred invariants."""
import itertools

import numpy as np

from . import arr
from .arr import SymArray, dimval, ix, zi
from .core import *  # noqa
from .core import z3, cx

BRK = object()


class RET:
    def __init__(self, v):
        self.v = v


class SRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def _sym_len(self):
        return dimval(ix(z3.If(zi(ix(self.hi)) > zi(ix(self.lo)), zi(ix(self.hi)) - zi(ix(self.lo)), z3.IntVal(0))))

    def n_item(self):
        lo, hi = ix(self.lo), ix(self.hi)
        n = arr.isub(hi, lo)
        if not isinstance(n, int) and not cx().valid(n >= 0):
            n = ix(z3.If(n >= 0, n, z3.IntVal(0)))
        return n, (lambda j: dimval(arr.iadd(lo, j)))

    def __iter__(self):
        n, item = self.n_item()
        if not isinstance(n, int):
            raise Unsupported("iteration over a symbolic range")
        return iter([item(j) for j in range(n)])


def srange(*a):
    a = [simp(x) if isinstance(x, Sym) else x for x in a]
    if all(isinstance(x, (int, np.integer)) for x in a):
        return range(*a)
    if any(isinstance(x, SReal) for x in a):
        raise arr.VTypeError("'float' object cannot be interpreted as an integer")
    if len(a) == 1:
        return SRange(0, a[0])
    if len(a) == 2:
        return SRange(a[0], a[1])
    if a[2] == 1:
        return SRange(a[0], a[1])
    raise Unsupported("range with a step")


class Zip:
    def __init__(self, parts):
        self.parts = parts


def senumerate(x, start=0):
    if sym_iter(x) is not None:
        return Zip([SRange(start, None), x])
    return enumerate(x, start)


def szip(*xs, **k):
    if any(sym_iter(x) is not None for x in xs):
        return Zip(list(xs))
    return zip(*xs, **k)


def sym_iter(x):
    """(n, item) when iteration over x is symbolic"""
    if isinstance(x, SRange):
        if x.hi is None:
            return None
        n, item = x.n_item()
        return None if isinstance(n, int) else (n, item)
    if isinstance(x, SymArray):
        n = x._shape[0] if x._shape else None
        if n is None or isinstance(n, int):
            return None
        snap = x.copy() if x.ndim > 1 else None
        f = x.snap()
        if x.ndim == 1:
            return n, (lambda j: f((j,)))
        return n, (lambda j: x[dimval(j)])
    if isinstance(x, Zip):
        n, its = None, []
        for p in x.parts:
            if isinstance(p, SRange) and p.hi is None:
                its.append(lambda j, s=p.lo: dimval(arr.iadd(ix(s), j)))
                continue
            r = sym_iter(p)
            if r is None:
                raise Unsupported("zip of symbolic and concrete")
            if n is None:
                n = r[0]
            elif not arr.sameint(n, r[0]):
                raise Unsupported("zip of different lengths")
            its.append(r[1])
        return n, (lambda j: tuple(i(j) for i in its))
    r = getattr(x, "_sym_iter", None)
    return r() if r is not None and not isinstance(x, type) else None


UNBOUND = object()


class Poison:
    """value of a loop-local name after a symbolic loop"""

    def __getattr__(self, k):
        raise Unsupported("use of a loop-local value after a symbolic loop")

    def _no(self, *a):
        raise Unsupported("use of a loop-local value after a symbolic loop")

    __add__ = __radd__ = __sub__ = __mul__ = __rmul__ = __getitem__ = __call__ = __bool__ = __iter__ = __lt__ = __gt__ = __le__ = __ge__ = _no


def _get(g):
    try:
        return g()
    except NameError:
        return UNBOUND


class State:
    """loop state handed to a stated invariant"""

    def __init__(self, vals, k, traces):
        self.__dict__.update(vals)
        self.k, self.trace = k, traces

    def __getattr__(self, name):
        raise Unsupported("the loop has no variable " + name)


def stated(site):
    """(invariant, arrays, traces) stated by the contract for this loop"""
    c = cx()
    for pat, inv in c.memo.get("invs", ()) if c is not None else ():
        if pat in site:
            return inv
    return None


def fresh_array(name, dims, kind):
    """an arbitrary array: kind f (finite numbers), any (floats), b, i"""
    c = cx()
    F = c.func(name, *(["I"] * len(dims)), {"f": "R", "any": "R", "b": "B"}.get(kind, "I"))
    fl = [c.func(name + k, *(["I"] * len(dims)), "B") for k in ("_nan", "_pinf", "_ninf")] if kind == "any" else []

    def f(idx):
        zs = [zi(i) for i in idx]
        if not fl:
            return lift(F(*zs))
        n, p, q = [g(*zs) for g in fl]
        return SReal(F(*zs), n, z3.And(p, z3.Not(n)), z3.And(q, z3.Not(n), z3.Not(p)))

    return SymArray(tuple(dims), f, {"b": "bool", "i": "int64"}.get(kind, "float64"), name=name)


def inv_loop(site, decl, n, item, cond, body, getters, setters):
    """a loop cut at an invariant stated by the contract: it holds on entry, a generic
    iteration keeps it, and after the loop only the invariant is known"""
    c = cx()
    inv, arrays, traces, S, rebinds = decl
    if c.hyps:
        raise Unsupported("loop with a stated invariant inside a generic iteration")
    names = list(getters)
    cells = {}
    for fn in (body, cond):
        code = getattr(fn, "__code__", None)
        for nm, cell in zip(code.co_freevars if code else (), getattr(fn, "__closure__", None) or ()):
            try:
                cells[nm] = cell.cell_contents
            except ValueError:
                pass

    def now():
        d = dict(cells)
        d.update({k: _get(getters[k]) for k in names})
        return {k: v for k, v in d.items() if v is not UNBOUND}

    def walk(st, prove):
        for cl in inv(st):
            if len(cl) == 2:
                if prove:
                    S.ensure("invariant: " + cl[0], cl[1])
                elif cl[1] is not True:
                    S.assume(cl[1])
            else:
                if prove:
                    S.ensure_forall("invariant: " + cl[0], cl[1], cl[2])
                else:
                    given(cl[1], cl[2])

    def given(m, f):
        """f for all indices below m, at the terms of the run (not at those made from traces)"""
        m = ix(m)

        def u(t):
            if ghost(t):
                return
            g = arr.rng(ix(t), m)
            if g is False:
                return
            hy, c.hyps = c.hyps, [] if g is True else [g]
            d, c.depth_inst = c.depth_inst, 9
            try:
                c.add(zb(lift(f(SInt(zi(t)))).e))
            finally:
                c.hyps, c.depth_inst = hy, d
            for fn in tr.values():
                r = fn(SInt(zi(t)))
                if isinstance(r, SInt):
                    c.register(r.e)

        c.universal(u)

    def ghost(t):
        todo = [t]
        while todo:
            e = todo.pop()
            if e.decl().name() in ghosts:
                return True
            todo.extend(e.children())
        return False

    tr, ghosts = {}, set()
    entry = now()
    st0 = State(entry, 0, {})
    first = {t: f(st0) for t, f in traces.items()}
    st0.trace = {t: (lambda j, v=v: v) for t, v in first.items()}
    walk(st0, True)
    stores = reachable([list(entry.values())])
    mine = {}
    for a in arrays:
        v = entry.get(a)
        if not isinstance(v, SymArray):
            raise Unsupported("the loop has no array " + a)
        mine[id(v.store)] = v
    for v in mine.values():
        F = c.func("inv_arr", *(["I"] * v.ndim), {"f": "R", "b": "B"}.get(v.dtype.kind, "I"))
        v.store.f = lambda idx, F=F: lift(F(*[zi(i) for i in idx]))
    fresh = []
    for k, (dims, kind) in rebinds.items():
        if k not in names:
            raise Unsupported("the loop does not assign " + k)
        a = fresh_array("inv_" + k, [ix(d) for d in dims], kind)
        fresh.append((a.store, a.store.f))
        setters[k](a)
    for k in names:
        v = entry.get(k)
        if v is None or k in rebinds or isinstance(v, (str, SymArray)):
            continue
        l = lift(v) if is_scalar(v) else None
        if isinstance(l, SInt):
            setters[k](SInt(c.fresh("inv_" + k, "I")))
        elif isinstance(l, SBool):
            setters[k](SBool(c.fresh("inv_" + k, "B")))
        elif isinstance(l, SReal):
            setters[k](SReal(c.fresh("inv_" + k, "R")))
        else:
            raise Unsupported("loop-carried value of type %s" % type(v).__name__)
    k = c.fresh("iter", "I")
    for t, v in first.items():
        F = c.func("trace_" + t, "I", "I" if isinstance(lift(v), SInt) else "R")
        ghosts.add(F.name())
        tr[t] = lambda j, F=F: lift(F(zi(ix(j))))
    c.add(k >= 0)
    c.register(k)
    c.register(k + 1)
    if n is not None:
        c.add(k <= zi(n))
    st = State(now(), SInt(k), tr)
    for t, f in traces.items():
        c.add(zb(lift(cmp("==", tr[t](SInt(k)), f(st))).e))
        c.add(zb(lift(cmp("==", tr[t](0), first[t])).e))
    walk(st, False)
    c.memo.setdefault("traces", {})[site] = tr
    before = {id(s): s.f for s in stores}
    if n is not None:
        if c.choose("iteration of " + site, 2) == 1:
            c.add(k == zi(n))
            return None
        c.add(k < zi(n))
        r = body(item(k))
    else:
        if not bool(cond()):
            return None
        r = body()
    if r is BRK:
        return None
    if isinstance(r, RET):
        return r
    for s in stores:
        if s.f is not before[id(s)] and id(s) not in mine:
            raise Unsupported("writes to an array the invariant does not mention")
    for s, f in fresh:
        if s.f is not f and id(s) not in mine:
            raise Unsupported("writes to an array that the loop assigns anew")
    new = State(now(), SInt(k + 1), {})
    vals = {t: f(new) for t, f in traces.items()}
    new.trace = {t: (lambda j, t=t: ite(cmp("==", j, SInt(k + 1)), vals[t], tr[t](j))) for t in traces}
    walk(new, True)
    c.ex.loops.append((site, "stated", True))
    raise PathEnd()


def vc_for(site, it, body, getters, setters):
    si = None
    decl = stated(site)
    if decl is not None:
        si = sym_iter(it) if not isinstance(it, (list, tuple, dict, range, str)) else None
        if si is None and isinstance(it, range) and it.step == 1:
            si = (len(it), lambda j, lo=it.start: dimval(arr.iadd(lo, j)))
        if si is not None:
            return inv_loop(site, decl, si[0], si[1], None, body, getters, setters)
    if not isinstance(it, (list, tuple, dict, range, str)):
        si = sym_iter(it)
    if si is None:
        for x in it:
            r = body(x)
            if r is BRK:
                return None
            if isinstance(r, RET):
                return r
        return None
    return sym_for(site, si, body, getters, setters)


class Journal:
    """records array writes so that a body can be run and rolled back"""

    cur = None


def reachable(vals, depth=3):
    """arrays reachable from local values"""
    out, seen = {}, set()

    def go(v, d):
        if id(v) in seen or d < 0:
            return
        seen.add(id(v))
        if isinstance(v, SymArray):
            out[id(v.store)] = v.store
        elif isinstance(v, (list, tuple)):
            for x in v:
                go(x, d - 1)
        elif isinstance(v, dict):
            for x in v.values():
                go(x, d - 1)
        elif hasattr(v, "cols"):
            go(v.cols, d - 1)
        elif hasattr(v, "__dict__") and not isinstance(v, type) and not callable(v) and type(v).__module__ not in ("builtins", "numpy"):
            for x in list(v.__dict__.values()):
                go(x, d - 1)

    go(vals, depth)
    return list(out.values())


def merged(fn, snapshot, restore):
    """run fn over all its branches; returns [(cond, result, state)] with state taken by snapshot()"""
    c = cx()
    results = []
    work = [[]]
    base = len(c.hyps)
    save = c.branch
    while work:
        prefix = work.pop()
        taken = []

        def branch(cond, prefix=prefix, taken=taken):
            k = bconst(cond)
            if k is None:
                cond = z3.simplify(cond)
                k = bconst(cond)
            if k is not None:
                return k
            if len(taken) < len(prefix):
                d = prefix[len(taken)]
            else:
                if c._check(cond) == z3.unsat:
                    d = 0
                elif c._check(z3.Not(cond)) == z3.unsat:
                    d = 1
                else:
                    d = 1
                    work.append(taken + [0])
            taken.append(d)
            c.hyps.append(cond if d else z3.Not(cond))
            return bool(d)

        restore()
        c.branch = branch
        try:
            try:
                r = ("ok", fn())
            except Exception as e:  # an exception of the program
                r = ("exc", e)
        finally:
            c.branch = save
        pc = c.hyps[base:]
        del c.hyps[base:]
        results.append((band(*pc), r, snapshot()))
        if len(results) > 64:
            raise Unsupported("too many paths in a loop body")
    restore()
    return results


def merge_vals(items):
    """items: [(cond, value)] -> one value"""
    v0 = items[0][1]
    if all(v is v0 for _, v in items):
        return v0
    if all(is_scalar(v) for _, v in items):
        r = items[-1][1]
        for cnd, v in reversed(items[:-1]):
            r = ite(cnd, v, r)
        return r
    if all(isinstance(v, SymArray) for _, v in items):
        sh = items[0][1]._shape
        if all(len(v._shape) == len(sh) and all(arr.sameint(a, b) for a, b in zip(v._shape, sh)) for _, v in items):
            fs = [(cnd, v.snap()) for cnd, v in items]

            def f(idx):
                r = fs[-1][1](idx)
                for cnd, g in reversed(fs[:-1]):
                    r = ite(cnd, g(idx), r)
                return r

            return SymArray(sh, f, arr.result_dtype(*[v for _, v in items]))
    return Poison()


def sym_for(site, si, body, getters, setters):
    n, item = si
    c = cx()
    zn = zi(n)
    names = list(getters)
    entry = {k: _get(getters[k]) for k in names}
    free = getattr(body, "__closure__", None) or ()
    cells = []
    for cell in free:
        try:
            cells.append(cell.cell_contents)
        except ValueError:
            pass
    stores = reachable([list(entry.values()), cells])
    old_f = {id(s): s.f for s in stores}

    def restore():
        for s in stores:
            s.f = old_f[id(s)]
        for k in names:
            if entry[k] is not UNBOUND:
                setters[k](entry[k])

    carried_reads = []

    def run(j, env=None):
        """merged effect of iteration j on the entry state"""

        def snap():
            return ({k: _get(getters[k]) for k in names}, {id(s): s.f for s in stores if s.f is not old_f[id(s)]})

        def res():
            restore()
            for k, v in (env or {}).items():
                setters[k](v)

        return merged(lambda: body(item(j)), snap, res)

    # which names are read before being written in an iteration (loop-carried)?
    # run with fresh values for every numeric name that has a value on entry
    it = z3.Int("loop!%s" % (c.nfresh.setdefault("loop", 0)))
    c.nfresh["loop"] += 1
    c.memo.setdefault("iotas", {})[it.get_id()] = it
    havoc = {}
    for k in names:
        v = entry[k]
        if v is UNBOUND or v is None or isinstance(v, (str, tuple, dict)):
            continue
        if isinstance(v, (bool, np.bool_, SBool)):
            havoc[k] = SBool(c.fresh("carry", "B"))
        elif isinstance(v, (int, np.integer, SInt)):
            havoc[k] = SInt(c.fresh("carry", "I"))
        elif isinstance(v, (float, np.floating, SReal)):
            havoc[k] = SReal(c.fresh("carry", "R"))
    # array state written in the body: reads see the entry contents at the own index only
    readlog = {}

    def wrap_store(s):
        f = old_f[id(s)]

        def g(idx):
            readlog.setdefault(id(s), []).append(idx)
            return f(idx)

        return g

    with c.under(it >= 0, it < zn):
        c.register(it)
        saved = dict(old_f)
        for s in stores:
            old_f[id(s)] = wrap_store(s)
        try:
            paths = run(it, havoc)
        finally:
            wrapped = dict(old_f)
            old_f.clear()
            old_f.update(saved)
        for s in stores:
            if s.f is wrapped.get(id(s)):
                s.f = saved[id(s)]
    for cond, (kind, r), st in paths:
        if kind == "ok" and (r is BRK or isinstance(r, RET)):
            restore()
            raise Unsupported("break/return in a symbolic for loop")
    exc = [(cond, r) for cond, (kind, r), st in paths if kind == "exc"]
    written = {}
    for cond, (kind, r), st in paths:
        for sid, f in st[1].items():
            if f is not wrapped.get(sid):
                written[sid] = True
    hv = frozenset(_z(v).get_id() for v in havoc.values())
    if exc:
        for cond, e in exc:
            if hv and sums_contains(zb(cond), hv):
                raise Unsupported("exception depends on carried state")
            if not getattr(e, "_vc", False) and isinstance(e, (TypeError, AttributeError, NameError)):
                raise e

        def pexc(j):
            ps = run(j)
            return SBool(bor(*[zb(cd) for cd, (kd, rr), st in ps if kd == "exc"]))

        restore()
        some = arr.exists(n, pexc)
        restore()
        if c.branch(some.e):
            raise exc[0][1]
    # stores: only the own index may be read or written
    acc = {}
    for s in stores:
        if id(s) not in written:
            continue
        if len(written) == 1 and not exc and _foreign(s, readlog, it, zn):
            d = accumulated(s, names, getters, setters, old_f, saved, run, havoc, it, zn, [entry, cells])
            if d is not None:
                acc[id(s)] = d
                continue
        q = z3.Int("other!%d" % c.nfresh.setdefault("other", 0))
        c.nfresh["other"] += 1
        rl = readlog.get(id(s), [])
        for idx in rl:
            if not idx or not arr.sameint(idx[0], it):
                with c.under(it >= 0, it < zn):
                    if not (idx and is_z3(idx[0]) and c.valid(idx[0] == it)):
                        raise Unsupported("loop-carried array state")
        for cond, (kind, r), st in paths:
            f = st[1].get(id(s))
            if f is None or f is wrapped.get(id(s)):
                continue
            # check at a generic other index
            nd = len(rl[0]) if rl else None
            nd = _rank_of(s, [entry, cells])
            idx = (q,) + tuple(z3.Int("oi!%d" % k) for k in range(nd - 1))
            with c.under(it >= 0, it < zn, zb(cond), q != it):
                a, b = f(idx), saved[id(s)](idx)
                if not c.valid(zb(same(a, b).e)):
                    raise Unsupported("loop writes other elements")
        # closed form
    restore()
    memo = {}

    def at_iter(j):
        key = j if isinstance(j, int) else ("z", j.get_id())
        if key not in memo:
            now = {id(s): s.f for s in stores}
            cur = {k: _get(getters[k]) for k in names}
            with c.under(arr.rng(j, n)):
                memo[key] = (run(j), j)
            for s in stores:
                s.f = now[id(s)]
            for k in names:
                if cur[k] is not UNBOUND:
                    setters[k](cur[k])
        return memo[key][0]

    finals = {}
    for s in stores:
        if id(s) in written:
            f0 = saved[id(s)]
            if id(s) in acc:
                from . import sums

                def f(idx, f0=f0, d=acc[id(s)]):
                    return arith("+", f0(idx), sums.sum_over(n, lambda j: d(j, idx)))

                finals[id(s)] = arr.memoise(f)
                continue

            def f(idx, s=s, f0=f0):
                inr = arr.rng(idx[0], n)
                if inr is False:
                    return f0(idx)
                ps = [(cd, st) for cd, (kd, rr), st in at_iter(idx[0]) if kd == "ok"]
                items = []
                for cd, st in ps:
                    g = st[1].get(id(s), f0)
                    items.append((cd, g(idx)))
                v = merge_vals(items)
                return v if inr is True else ite(inr, v, f0(idx))

            finals[id(s)] = arr.memoise(f)
    # locals
    newvals = {}
    for k in names:
        vals = [(cond, st[0][k]) for cond, (kind, r), st in paths if kind == "ok"]
        if not vals:
            continue
        if all(v is havoc.get(k, entry[k]) for _, v in vals):
            newvals[k] = entry[k]
            continue
        if k in havoc and all(is_scalar(v) for _, v in vals):
            with c.under(it >= 0, it < zn):
                m = merge_vals(vals)
                old = havoc[k]
                d = arith("-", m, old) if not isinstance(old, SBool) else None
            if d is not None:
                dz = z3.simplify(_z(d), som=True)
                if not sums_contains(dz, hv) and (not isinstance(d, SReal) or d.plain):
                    # accumulation: entry + sum of d(j)
                    from . import sums

                    def dj(j, k=k):
                        now = {id(s): s.f for s in stores}
                        cur = {x: _get(getters[x]) for x in names}
                        ps = run(j, {k: 0 if isinstance(havoc[k], SInt) else 0.0})
                        for s in stores:
                            s.f = now[id(s)]
                        for x in names:
                            if cur[x] is not UNBOUND:
                                setters[x](cur[x])
                        return merge_vals([(cd, st[0][k]) for cd, (kd, rr), st in ps if kd == "ok"])

                    newvals[k] = ("acc", k, dj)
                    continue
        newvals[k] = Poison()
    for s in stores:
        s.f = finals.get(id(s), saved[id(s)])
    for k, v in newvals.items():
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "acc":
            from . import sums

            tot = sums.sum_over(n, v[2])
            v = arith("+", entry[k], tot)
        if v is not UNBOUND:
            setters[k](v)
    return None


def _foreign(s, readlog, it, zn):
    """does an iteration read elements other than its own?"""
    c = cx()
    for idx in readlog.get(id(s), []):
        if not idx or not arr.sameint(idx[0], it):
            with c.under(it >= 0, it < zn):
                if not (idx and is_z3(idx[0]) and c.valid(idx[0] == it)):
                    return True
    return False


def accumulated(s, names, getters, setters, old_f, saved, run, havoc, it, zn, where):
    """when an iteration adds to the elements of an array what does not depend on
    the array: the amount iteration j adds at an index, else None"""
    c = cx()
    nd = _rank_of(s, where)
    q = tuple(z3.Int("oi!%d" % k) for k in range(nd))
    with c.under(it >= 0, it < zn):
        e = lift(saved[id(s)](q))
        if isinstance(e, SReal) and not e.plain or not isinstance(e, (SReal, SInt)):
            return None
        isint = isinstance(e, SInt)
        H = c.func("state", *(["I"] * nd), "I" if isint else "R")
        box = SInt if isint else SReal
        hid = H.name()

        def go(j, f, env):
            old_f[id(s)] = f
            try:
                return run(j, env)
            finally:
                old_f[id(s)] = saved[id(s)]
                s.f = saved[id(s)]

        zero = 0 if isint else 0.0
        fz = lambda idx: zero
        fh = lambda idx: box(H(*[zi(i) for i in idx]))
        ps = go(it, fh, havoc)
        p0 = go(it, fz, havoc)
        if any(kd != "ok" for _, (kd, rr), st in ps + p0):
            return None
        for k in havoc:
            for _, r, st in ps:
                v = st[0][k]
                if is_scalar(v) and _mentions(_z(lift(v)), hid):
                    return None
        val = lambda st, f: lift(st[1].get(id(s), f)(q))
        a = merge_vals([(cd, val(st, fh)) for cd, r, st in ps])
        d = lift(merge_vals([(cd, val(st, fz)) for cd, r, st in p0]))
        hv = frozenset(_z(v).get_id() for v in havoc.values())
        if sums_contains(_z(d), hv) or isinstance(d, SReal) and not d.plain and not c.valid(bnot(bor(d.nan, d.pinf, d.ninf))):
            return None
        if not c.valid(zb(same(a, arith("+", fh(q), d)).e)):
            return None

    def delta(j, idx):
        cur = {k: _get(getters[k]) for k in names}
        now = s.f
        try:
            v = lift(merge_vals([(cd, st[1].get(id(s), fz)(idx)) for cd, r, st in go(j, fz, {})]))
        finally:
            s.f = now
            for k in names:
                if cur[k] is not UNBOUND:
                    setters[k](cur[k])
        return SReal(v.v) if isinstance(v, SReal) else v

    return delta


def _mentions(e, name):
    seen, todo = set(), [e]
    while todo:
        t = todo.pop()
        if not z3.is_expr(t) or t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().name() == name:
                return True
            todo += t.children()
    return False


def _rank_of(s, where):
    found = []

    def go(v, d):
        if d < 0 or found:
            return
        if isinstance(v, SymArray):
            if v.store is s:
                found.append(len(v.view) if v.view is not None else v.ndim)
        elif isinstance(v, (list, tuple)):
            for x in v:
                go(x, d - 1)
        elif isinstance(v, dict):
            for x in v.values():
                go(x, d - 1)
        elif hasattr(v, "__dict__"):
            go(v.__dict__, d - 1)

    go(where, 6)
    return found[0] if found else 1


def _z(v):
    return v.v if isinstance(v, SReal) else v.e


def sums_contains(e, ids):
    from . import sums

    return bool(ids) and sums.contains(e, ids)


# ------------------------------------------------------------------ while
class Probe(BaseException):
    pass


def vc_while(site, cond, body, getters, setters):
    c = cx()
    if c is None:
        while cond():
            r = body()
            if r is BRK:
                return None
            if isinstance(r, RET):
                return r
        return None
    decl = stated(site)
    if decl is not None:
        return inv_loop(site, decl, None, None, cond, body, getters, setters)
    if c.memo.get("unroll"):
        # requested by the contract: every iteration forks, the contract bounds the number of cycles
        while cond():
            r = body()
            if r is BRK:
                return None
            if isinstance(r, RET):
                return r
        return None
    for k in range(100000):
        d = probe(cond)
        if d is None:
            return cut_while(site, cond, body, getters, setters)
        if not d:
            return None
        r = body()
        if r is BRK:
            return None
        if isinstance(r, RET):
            return r
        if k > 400:
            raise Unsupported("long native while loop")


def probe(cond):
    """value of the condition when it needs no fork, else None"""
    c = cx()
    save = c.branch

    def br(e):
        k = bconst(e)
        if k is None:
            e = z3.simplify(e)
            k = bconst(e)
        if k is not None:
            return k
        if c.unsat(e):
            return False
        if c.valid(e):
            return True
        raise Probe()

    c.branch = br
    try:
        v = cond()
        return bool(v)
    except Probe:
        return None
    finally:
        c.branch = save


def _ints(state, extra):
    out = {}
    for k, v in list(state.items()) + list(extra.items()):
        if isinstance(v, (bool, np.bool_, SBool)):
            continue
        if isinstance(v, (int, np.integer, SInt)):
            out[k] = v
    return out


def candidates(state, const):
    """candidate invariants as functions of a state dictionary (names fixed)"""
    ints = [k for k, v in state.items() if isinstance(v, (int, SInt)) and not isinstance(v, bool)]
    cints = [k for k, v in const.items() if isinstance(v, (int, SInt)) and not isinstance(v, bool)]
    arrs = [k for k, v in {**const, **state}.items() if isinstance(v, SymArray) and v.ndim == 1]
    reals = [k for k, v in {**const, **state}.items() if isinstance(v, (SReal, float)) or (isinstance(v, SInt) and k in const)]
    out = []

    def val(st, k):
        return st[k] if k in st else const[k]

    for a in ints:
        for off in (-1, 0, 1):
            out.append((("ge", a, off), lambda st, a=a, off=off: cmp(">=", val(st, a), off)))
            out.append((("ge0", a, off), lambda st, a=a, off=off: cmp(">=", val(st, a), arith("+", val(st, ("entry", a)), off))))
            out.append((("le0", a, off), lambda st, a=a, off=off: cmp("<=", val(st, a), arith("+", val(st, ("entry", a)), off))))
            for b in ints + cints:
                if a != b:
                    if off <= 0:
                        out.append(
                            (
                                ("lt-if", a, b, off),
                                lambda st, a=a, b=b, off=off: SBool(
                                    bor(
                                        bnot(cmp("<=", val(st, ("entry", a)), arith("+", val(st, ("entry", b)) if b in ints else val(st, b), off)).e),
                                        cmp("<=", val(st, a), arith("+", val(st, b), off)).e,
                                    )
                                ),
                            )
                        )
                    out.append((("le", a, b, off), lambda st, a=a, b=b, off=off: cmp("<=", val(st, a), arith("+", val(st, b), off))))
                    out.append((("ge", a, b, off), lambda st, a=a, b=b, off=off: cmp(">=", val(st, a), arith("+", val(st, b), off))))
            for z in arrs:
                out.append((("len", a, z, off), lambda st, a=a, z=z, off=off: cmp("<=", val(st, a), arith("+", dimval(val(st, z)._shape[0]), off))))
        for z in arrs:
            for x in reals:
                for off in (-1, 0, 1):
                    for op in ("<=", "<", ">", ">=", "!<=", "!>=", "!<", "!>"):

                        def f(st, a=a, z=z, x=x, off=off, op=op):
                            p = ix(arith("+", val(st, a), off))
                            zz = val(st, z)
                            inr = arr.rng(p, zz._shape[0])
                            lim = st.get("range")
                            if inr is False:
                                return True
                            if not isinstance(p, int):
                                cx().register(p)
                            with cx().under(inr):
                                v = cmp(op.lstrip("!"), zz.snap()((p,)), val(st, x)).e
                            return SBool(bor(bnot(inr), bnot(v) if op[0] == "!" else v))

                        out.append((("arr", a, z, x, off, op), f))
                        if ("entry", a) in state or True:

                            def g(st, f=f, a=a, off=off):
                                # guarded: the variable has left its entry value
                                moved = cmp("!=", val(st, a), val(st, ("entry", a)))
                                return SBool(bor(bnot(moved.e), lift(f(st)).e if not isinstance(f(st), bool) else zb(f(st))))

                            out.append((("arrm", a, z, x, off, op), g))
    return out


def cut_while(site, cond, body, getters, setters):
    c = cx()
    ex = c.ex
    if c.hyps:
        raise Unsupported("symbolic while loop inside a generic iteration")
    names = list(getters)
    state = {k: _get(getters[k]) for k in names}
    cells = {}
    for fn in (body, cond):
        code = getattr(fn, "__code__", None)
        for nm, cell in zip(code.co_freevars if code else (), fn.__closure__ or ()):
            if nm not in names:
                try:
                    cells[nm] = cell.cell_contents
                except ValueError:
                    pass
    const = {k: v for k, v in cells.items() if not callable(v)}
    num = {}
    for k, v in state.items():
        if v is UNBOUND:
            continue
        if is_scalar(v):
            num[k] = v
        elif isinstance(v, SymArray):
            num[k] = v
        elif v is None or isinstance(v, str):
            continue
        else:
            raise Unsupported("loop-carried value of type %s" % type(v).__name__)
    entry = dict(num)
    for k in num:
        entry[("entry", k)] = num[k]
    cnt = c.memo.setdefault("whilecnt", {})
    cnt[site] = cnt.get(site, 0) + 1
    key = (site, cnt[site], tuple(d for d in c.taken))
    key = (site, cnt[site])
    cands = candidates(num, const)
    alive = ex.alive.get(key)
    if alive is None:
        alive = ex.alive[key] = {nm for nm, _ in cands}
    # initial validity
    drop = set()
    for nm, f in cands:
        if nm in alive:
            v = f(entry)
            if not (v is True or c.valid(lift(v).e)):
                drop.add(nm)
    if drop:
        alive -= drop
    stores = reachable([list(state.values()), list(const.values())])
    # havoc
    st = {}
    for k, v in num.items():
        l = v if isinstance(v, SymArray) else lift(v)
        if isinstance(l, SInt):
            st[k] = SInt(c.fresh("it_" + k, "I"))
        elif isinstance(l, SBool):
            st[k] = SBool(c.fresh("it_" + k, "B"))
        elif isinstance(l, SReal):
            st[k] = SReal(c.fresh("it_" + k, "R"), c.fresh("itn_" + k, "B"), c.fresh("itp_" + k, "B"), c.fresh("itm_" + k, "B"))
            r = st[k]
            c.add(z3.And(z3.Not(z3.And(r.nan, r.pinf)), z3.Not(z3.And(r.nan, r.ninf)), z3.Not(z3.And(r.ninf, r.pinf))))
        else:
            F = c.func("it_" + k, *(["I"] * l.ndim), {"f": "R", "b": "B"}.get(l.dtype.kind, "I"))
            st[k] = SymArray(l._shape, lambda idx, F=F: lift(F(*[zi(i) for i in idx])), l.dtype)
        setters[k](st[k])
    st.update({("entry", k): num[k] for k in num})
    for nm, f in cands:
        if nm in alive:
            v = f(st)
            if v is not True:
                c.add(zb(lift(v).e))
    before = {id(s): s.f for s in stores}
    if not bool(cond()):
        # exit path: ranking not checked here
        return None
    r = body()
    if r is BRK:
        return None
    if isinstance(r, RET):
        return r
    for s in stores:
        if s.f is not before[id(s)]:
            raise Unsupported("array writes in a symbolic while loop")
    new = {k: _get(getters[k]) for k in num}
    new.update({("entry", k): num[k] for k in num})
    bad = set()
    for nm, f in cands:
        if nm in alive:
            try:
                v = f(new)
            except Unsupported:
                bad.add(nm)
                continue
            if not (v is True or c.valid(lift(v).e)):
                bad.add(nm)
    if bad:
        alive -= bad
        raise Restart()
    # termination: some candidate measure decreases and is bounded below
    ints = [k for k in num if isinstance(lift(num[k]) if not isinstance(num[k], SymArray) else None, SInt)]
    ms = [(a, b) for a in ints for b in ints if a != b]
    ok = False
    for a, b in ms:
        m0, m1 = arith("-", st[a], st[b]), arith("-", new[a], new[b])
        if c.valid(band(cmp("<", m1, m0).e, cmp(">=", m0, 0).e)):
            ok = True
            break
    if not ok:
        for a in ints:
            for s in (1, -1):
                m0, m1 = arith("*", st[a], s), arith("*", new[a], s)
                if c.valid(cmp("<", m1, m0).e):
                    ok = True
    ex.loops.append((site, len(alive), ok))
    if ok:
        c.ensure("loop %s terminates (a measure decreases)" % (site,), True)
    else:
        c.notes.append("no termination measure found for the loop %s" % (site,))
    c.ensure("loop %s keeps its %d invariants" % (site, len(alive)), True)
    raise PathEnd()
