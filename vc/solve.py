"""Discharge of the obligations of one path."""
import subprocess
import time

from .core import *  # noqa
from .core import z3
from . import sums

CVC5 = "/opt/veriftools/bin/cvc5"


def symbols(e, memo):
    i = e.get_id()
    if i in memo:
        return memo[i]
    out, stack, seen = set(), [e], set()
    while stack:
        x = stack.pop()
        j = x.get_id()
        if j in seen:
            continue
        seen.add(j)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
        stack.extend(x.children())
    memo[i] = out
    return out


def cone(facts, goal, memo, rounds=None):
    """facts sharing symbols with the goal, transitively"""
    cur = set(symbols(goal, memo))
    left = list(facts)
    out = []
    k = 0
    while True:
        nxt = []
        new = []
        for f in left:
            s = symbols(f, memo)
            if s & cur or not s:
                new.append(f)
            else:
                nxt.append(f)
        if not new:
            break
        out += new
        for f in new:
            cur |= symbols(f, memo)
        left = nxt
        k += 1
        if rounds and k >= rounds:
            break
    return out


def rest_of(facts, part):
    ids = {f.get_id() for f in part}
    return [f for f in facts if f.get_id() not in ids]


class Result:
    def __init__(self, name, status, backend, t, model=None, detail=None):
        self.name, self.status, self.backend, self.t, self.model, self.detail = name, status, backend, t, model, detail


def run_z3(facts, ngoal, ms, tactic=None):
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set("timeout", ms)
    for f in facts:
        s.add(f)
    s.add(ngoal)
    try:
        r = s.check()
    except z3.Z3Exception:
        return z3.unknown, None
    return r, (s.model() if r == z3.sat else None)


def run_cvc5(facts, ngoal, ms):
    s = z3.Solver()
    for f in facts:
        s.add(f)
    s.add(ngoal)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        p = subprocess.run(
            ["cvc5", "--lang=smt2", "--tlimit=%d" % ms, "--nl-cov"],
            input=txt,
            capture_output=True,
            text=True,
            timeout=ms / 1000 + 5,
        )
    except (subprocess.TimeoutExpired, FileNotFoundError):
        return "unknown"
    out = p.stdout.strip().splitlines()
    return out[0] if out else "unknown"


def proved_quickly(ctx, goal, memo, ms=700):
    ng = z3.Not(goal)
    if z3.is_false(z3.simplify(ng)):
        return True
    facts = ctx.facts
    if ctx.defs and run_z3(cone([f for f in facts if f.get_id() not in ctx.defs], goal, memo, 2), ng, ms)[0] == z3.unsat:
        return True
    near = cone(facts, goal, memo, 2)
    if run_z3(near, ng, ms)[0] == z3.unsat:
        return True
    full = cone(facts, goal, memo) if symbols(goal, memo) else list(facts)
    return len(full) > len(near) and run_z3(full, ng, ms)[0] == z3.unsat


def _quotients(e):
    """innermost quotients of e"""
    seen, out = {}, []

    def walk(t):
        k = t.get_id()
        if k not in seen:
            inside = any([walk(c) for c in t.children()])
            div = t.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(t.arg(1)) if z3.is_app(t) and t.num_args() == 2 else False
            if div and not inside:
                out.append(t)
            seen[k] = div or inside
        return seen[k]

    walk(e)
    return out


def generalised(facts, goal, ms, memo, rounds=4):
    """goal and facts with the innermost quotients, and then their denominators, replaced by arbitrary numbers
    of which only the sign and the defining equation are known"""
    tidy = lambda e: z3.simplify(e, sort_sums=True)
    facts, g = [tidy(f) for f in facts], tidy(goal)
    for r in range(rounds):
        qs = _quotients(g)
        if not qs or len(qs) > 12:
            return False
        subs, dens, known = [], [], []
        for q in qs:
            num, den = q.children()
            v, d = (z3.Real("quot%d_%s_%d" % (r, k, q.get_id())) for k in "vd")
            subs.append((q, v))
            pos = [run_z3(cone(facts, e > 0, {}, 2), z3.Not(e > 0), 700)[0] == z3.unsat for e in (q, den)]
            known += [v > 0] * pos[0]
            if r:
                known += [d > 0, v * d == num] * pos[1]
                dens.append((den, d))
        put = lambda e, s: tidy(z3.substitute(e, *s)) if s else e
        same = [(a, b) for a, b in dens if a.num_args() > 0]
        g, facts = put(put(g, subs), same), [put(put(f, subs), same) for f in facts] + [put(f, same) for f in known]
        some = [f for f in facts if not _quotients(f)]
        if run_z3(cone(some, g, {}), z3.Not(g), ms)[0] == z3.unsat:
            return True
    return False


def discharge(ctx, goal, budget, memo):
    """-> (status, backend, model)"""
    ng = z3.Not(goal)
    t0 = time.time()
    facts = ctx.facts
    if ctx.defs:
        small = [f for f in facts if f.get_id() not in ctx.defs]
        r, m = run_z3(cone(small, goal, memo, 2), ng, min(1500, budget))
        if r == z3.unsat:
            return "proved", "z3", None
    r, m = run_z3(cone(facts, goal, memo, 2), ng, min(1500, budget))
    if r == z3.unsat:
        return "proved", "z3", None
    full = cone(facts, goal, memo) if symbols(goal, memo) else list(facts)
    r, m = run_z3(full, ng, budget)
    if r == z3.unsat:
        return "proved", "z3", None
    if r == z3.sat:
        # the facts outside the cone share no symbols with it, but they must not exclude the path
        if len(full) < len(facts):
            r, _ = run_z3(rest_of(facts, full), z3.BoolVal(True), budget)
            if r == z3.unsat:
                return "proved", "z3", None
            if r != z3.sat:
                return "unknown", None, None
        return "refuted", "z3", m
    c = run_cvc5(full, ng, budget)
    if c == "unsat":
        return "proved", "cvc5", None
    if c == "sat":
        return "refuted", "cvc5", None
    if generalised(full, goal, budget, memo):
        return "proved", "z3", None
    return "unknown", None, None
