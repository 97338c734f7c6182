"""Symbolic execution of a contract over all paths, and its concrete runs."""
import time
import traceback

import numpy as np

from . import sums
from .core import *  # noqa
from .core import z3, Ctx, DEFS
from .loader import Loader
from .solve import discharge, proved_quickly
from .spec import ConS, Skip, SymS, engine_failure, model_values


class Explorer:
    feas_ms = 400

    def __init__(self):
        self.work = []
        self.alive = {}
        self.loops = []

    def push(self, p):
        self.work.append(p)


def jsonable(v):
    if isinstance(v, np.ndarray):
        return [jsonable(x) for x in v.tolist()] if v.ndim else jsonable(v.item())
    if isinstance(v, list):
        return [jsonable(x) for x in v]
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (np.floating, float)):
        v = float(v)
        return v if np.isfinite(v) else repr(v)
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.bool_,)):
        return bool(v)
    return v if isinstance(v, (int, str, bool, type(None))) else repr(v)


def unjson(v):
    if isinstance(v, list):
        return [unjson(x) for x in v]
    if isinstance(v, str):
        return {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf")}.get(v, v)
    return v


def run_concrete(con, seed=0, values=None):
    """-> ('skip'|'ok'|'fail'|'missing', used, messages)"""
    S = ConS(seed, values, con.opts.get("maxdim", 6))
    try:
        with np.errstate(all="ignore"):
            con.fn(S)
    except Skip:
        return "skip", S.used, []
    except Exception as e:
        fr = traceback.extract_tb(e.__traceback__)[-1]
        txt = "%s: %s" % (type(e).__name__, e)
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
        incontract = "/vc/" in fr.filename
        if incontract and isinstance(e, (AttributeError, ImportError, TypeError, KeyError, NameError)):
            return "missing", S.used, [txt, tb]
        if con.sym and _state_missing(e):
            return "missing", S.used, [txt, tb]
        return "fail", S.used, ["unexpected exception " + txt, tb]
    finally:
        S.unpatch()
    if S.failures:
        return "fail", S.used, S.failures
    return "ok", S.used, [S.checked]


def _state_missing(e):
    """a function under contract is called on an object built by the contract: state it
    needs that the contract does not set up is no failure of the code (the contracts that
    run whole trainings, all `bounded`, report such an exception)"""
    if isinstance(e, AttributeError) and type(getattr(e, "obj", None)).__module__.startswith("cyclic_boosting"):
        return True
    return isinstance(e, (AttributeError, TypeError)) and "NoneType" in str(e)


def explore(con, budget_s=60, ob_ms=4000, max_paths=400, loader=None):
    t0 = time.time()
    loader = loader or Loader()
    ex = Explorer()
    out = dict(obligations=[], undecided=[], refuted=[], paths=0, restarts=0, solver_s=0.0, covered=False, notes=[])
    max_paths = con.opts.get("max_paths", max_paths)
    prop_ms = con.opts.get("ob_ms", ob_ms)
    while True:
        ex.work = [[]]
        ex.loops = []
        res, und, refuted, paths, covered = [], [], [], 0, False
        loose = False
        started, reached = set(), set()
        notes = []
        restart = False
        while ex.work:
            if time.time() - t0 > budget_s or paths >= max_paths:
                und.append("budget of %d s / %d paths exhausted" % (budget_s, max_paths))
                break
            prefix = ex.work.pop()
            ctx = Ctx(prefix, ex)
            Ctx.cur = ctx
            DEFS.clear()
            S = SymS(ctx, loader)
            paths += 1
            done = False
            try:
                con.fn(S)
                done = True
            except PathEnd:
                pass
            except Restart:
                restart = True
            except Unsupported as e:
                und.append("unsupported: %s @ %s" % (str(e)[:300], where(e)))
            except Exception as e:
                if engine_failure(e):
                    und.append("engine: %s: %s @ %s" % (type(e).__name__, str(e)[:200], where(e)))
                else:
                    ctx.obls.append(("no exception escapes (%s: %s)" % (type(e).__name__, str(e)[:120]), z3.BoolVal(False), len(ctx.facts), None))
            finally:
                S.unpatch()
                ctx.hyps = []
                ctx.__dict__.pop("branch", None)
            if restart:
                out["restarts"] += 1
                break
            notes += ctx.notes
            memo = {}
            early = {}
            try:
                # relations between sums are only worked out as far as they are needed
                for lvl in [None, 0] if ctx.memo.get("sums") else []:
                    if lvl is not None:
                        sums.saturate(lvl)
                    for q, (_, goal, _, _) in enumerate(ctx.obls):
                        if goal is not None and q not in early:
                            t = time.time()
                            if proved_quickly(ctx, goal, memo):
                                early[q] = time.time() - t
                if len(early) < sum(o[1] is not None for o in ctx.obls):
                    sums.saturate(con.opts.get("saturate", 1))
            except Unsupported as e:
                pass
            for q, (name, goal, nf, tag) in enumerate(ctx.obls):
                if goal is None:
                    res.append((name, "proved", "evaluation", 0.0))
                    continue
                if q in early:
                    out["solver_s"] += early[q]
                    res.append((name, "proved", "z3", early[q]))
                    continue
                t = time.time()
                st = None
                if tag:
                    # by a lemma: premises and lemma together entail the goal
                    for g in tag:
                        st, be, m = discharge(ctx, g, prop_ms, memo)
                        if st != "proved":
                            break
                if st != "proved":
                    st, be, m = discharge(ctx, goal, prop_ms, memo)
                dt = time.time() - t
                out["solver_s"] += dt
                res.append((name, st, be, dt))
                if st == "unknown":
                    und.append("solver gave no answer: %s" % name)
                elif st == "refuted" and name.startswith("invariant: "):
                    und.append("stated loop invariant does not hold: %s" % name[11:])
                elif st == "refuted":
                    loose = loose or bool(ctx.memo.get("abstracted"))
                    r = dict(obligation=name, backend=be, replay=None, path=[str(d) for d in ctx.taken])
                    if len(refuted) < 6:
                        try:
                            attempt_replay(con, ctx, goal, m, r, prop_ms)
                        except Unsupported:
                            pass
                        if m is not None and r.get("model") is None:
                            r["model"] = str(m)[:3000]
                    refuted.append(r)
            picked = {(i[0], i[2]) for i in ctx.inputs if i[1] == "choice"}
            started |= picked
            if done and (not covered or not picked <= reached):
                if ctx._check() != z3.unsat:
                    covered = True
                    reached |= picked
            out["solver_s"] += ctx.solver_time
        if restart and time.time() - t0 < budget_s and out["restarts"] < 60:
            continue
        if restart:
            und.append("loop invariants did not settle")
        break
    if loose or any(u.startswith("stated loop invariant") for u in und):
        # judged with an invariant that does not fit the loop, or with an operation known only by its range
        und += ["not judged: " + r["obligation"] for r in refuted if not r.get("replay")]
        refuted = [r for r in refuted if r.get("replay")]
    notes += ["never reached with %s number %s" % x for x in sorted(started - reached)]
    out.update(obligations=res, undecided=und, refuted=refuted, paths=paths, covered=covered, loops=ex.loops[:20], notes=sorted(set(notes))[:10])
    out["wall_s"] = time.time() - t0
    Ctx.cur = None
    return out


def where(e):
    fr = [f for f in traceback.extract_tb(e.__traceback__)]
    inrepo = [f for f in fr if "/cyclic_boosting/" in f.filename or "/contracts/" in f.filename]
    last = fr[-1]
    s = "%s:%d" % (last.filename.rsplit("/", 1)[-1], last.lineno)
    if inrepo:
        f = inrepo[-1]
        s = "%s:%d via %s" % (f.filename.rsplit("/", 1)[-1], f.lineno, s)
    return s


def attempt_replay(con, ctx, goal, m, r, ms):
    """turn the counter-model into inputs of the real code"""
    Ctx.cur = ctx
    tried = []

    def attempt(model):
        v = model_values(ctx, model)
        if v is None:
            return False
        st, used, msg = run_concrete(con, 0, v)
        tried.append(st)
        if st == "fail":
            r["replay"] = dict(values=jsonable(used), messages=msg)
            return True
        return False

    if m is not None and attempt(m):
        return
    dims = ctx.memo.get("dims", [])
    s = z3.Solver()
    s.set("timeout", ms)
    for f in ctx.facts:
        s.add(f)
    s.add(z3.Not(goal))
    for cap in (2, 3, 5, 8):
        s.push()
        for d in dims:
            s.add(d <= cap)
        if s.check() == z3.sat:
            mm = s.model()
            if attempt(mm):
                return
            if cap == 3:
                # instantiate the universal facts at the first indices
                n0 = len(ctx.facts)
                for k in range(3):
                    ctx.register(z3.IntVal(k))
                for f in ctx.facts[n0:]:
                    s.add(f)
                if s.check() == z3.sat and attempt(s.model()):
                    return
        s.pop()


def search(con, seed, trials, budget_s):
    """random runs of the real code against the contract"""
    t0 = time.time()
    ok = skip = miss = checked = 0
    fails = []
    msg = None
    for k in range(trials):
        if time.time() - t0 > budget_s:
            break
        st, used, m = run_concrete(con, (seed * 1000003 + k) & 0x7FFFFFFF)
        if st == "ok":
            ok += 1
            checked += m[0]
        elif st == "skip":
            skip += 1
        elif st == "missing":
            miss += 1
            msg = m
            if miss > 3:
                break
        else:
            fails.append(dict(values=jsonable(used), messages=m, seed=(seed * 1000003 + k) & 0x7FFFFFFF))
            if len(fails) >= 3:
                break
    return dict(ok=ok, skip=skip, missing=miss, missing_msg=msg, checked=checked, fails=fails, wall_s=time.time() - t0)
