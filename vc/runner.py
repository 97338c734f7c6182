"""python -m vc.runner PXX : decides one property on the current tree of /repo."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import resource
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = [
    "floats are mathematical reals with NaN/+inf/-inf flags; ints are unbounded; -0.0 is 0; overflow of finite arithmetic is not modelled",
    "numpy, numexpr, pandas and numba primitives are axiomatised by vc/arr.py, vc/symnp.py, vc/frame.py (cross-checked against the real libraries by vc/selftest.py)",
    "elementary functions are uninterpreted with ground axioms (vc/trans.py); scipy functions likewise (vc/sci.py)",
    "numba decorators are the identity; logging and warnings have no effect on values",
    "CPython 3.12 executes the function bodies; loops over symbolic ranges are replaced by a generic iteration (vc/loops.py)",
    "z3 and cvc5 are sound",
]


def load(prop):
    from . import spec

    importlib.import_module("vc.contracts." + prop.lower())
    return spec.REGISTRY.get(prop, [])


class Entered:
    """functions of the package whose body runs while a contract is evaluated symbolically"""

    def __init__(self):
        self.root = os.path.join(os.path.abspath(os.environ.get("VC_REPO", "/repo")), "cyclic_boosting") + os.sep
        self.names = set()

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(m.COVERAGE_ID, "entered")
        m.register_callback(m.COVERAGE_ID, m.events.PY_START, self.start)
        m.set_events(m.COVERAGE_ID, m.events.PY_START)
        return self

    def start(self, code, offset):
        if code.co_flags & 1 and code.co_filename.startswith(self.root) and "<" not in code.co_qualname:  # 1: not a class body
            self.names.add(code.co_filename[len(self.root) : -3].replace(os.sep, ".") + "." + code.co_qualname)
        return sys.monitoring.DISABLE

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(m.COVERAGE_ID, 0)
        m.free_tool_id(m.COVERAGE_ID)


def task(kind, prop, idx, seed, tier, conn, budget):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(6000)
        from . import explore, spec

        con = spec.REGISTRY[prop][idx]
        if kind == "sym":
            import threading

            threading.stack_size(512 << 20)
            box = {}

            def go():
                try:
                    with Entered() as ent:
                        box["r"] = explore.explore(con, budget_s=budget, ob_ms=4000 if tier == "quick" else 20000)
                    box["r"]["entered"] = sorted(ent.names)
                except BaseException as e:
                    import traceback

                    box["r"] = dict(error="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))

            th = threading.Thread(target=go)
            th.start()
            th.join()
            r = box["r"]
        else:
            mult = 1 if tier == "quick" else 10
            r = explore.search(con, seed, con.trials * mult, budget)
        conn.send(r)
    except BaseException as e:
        import traceback

        try:
            conn.send(dict(error="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])))
        except Exception:
            pass
    conn.close()


def run_tasks(tasks, jobs, seed, tier, prop, verbose):
    ctx = mp.get_context("fork")
    todo = list(tasks)
    live = []
    out = {}
    while todo or live:
        while todo and len(live) < jobs:
            kind, idx, budget = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=task, args=(kind, prop, idx, seed, tier, b, budget))
            p.start()
            b.close()
            live.append((kind, idx, p, a, time.time() + budget * 1.5 + 20))
        nxt = []
        for kind, idx, p, a, dl in live:
            if a.poll(0.01):
                try:
                    out[kind, idx] = a.recv()
                except EOFError:
                    out[kind, idx] = dict(error="worker died (exit %s)" % p.exitcode)
                p.join()
            elif time.time() > dl:
                p.kill()
                p.join()
                out[kind, idx] = dict(error="time limit")
            elif not p.is_alive() and not a.poll(0.05):
                out[kind, idx] = dict(error="worker died (exit %s)" % p.exitcode)
            else:
                nxt.append((kind, idx, p, a, dl))
        live = nxt
        time.sleep(0.005)
    return out


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                out.append(line[len("known: ") :])
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--only", default="")
    ap.add_argument("--no-con", action="store_true")
    ap.add_argument("--no-sym", action="store_true")
    args = ap.parse_args(argv)
    t0 = time.time()
    os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
    repo = os.environ.get("VC_REPO", "/repo")
    sys.path.insert(0, repo)
    import logging

    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")
    prop = args.prop
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    try:
        import cyclic_boosting  # noqa

        where = os.path.dirname(os.path.abspath(cyclic_boosting.__file__))
        assert where == os.path.join(os.path.abspath(repo), "cyclic_boosting"), where
    except Exception as e:
        print("ERROR: cannot import the package from %s: %s" % (repo, e))
        return 2
    cons = load(prop)
    from .loader import Loader

    sel = [i for i, c in enumerate(cons) if args.only in c.name]
    budget = 45 if args.tier == "quick" else 600
    tasks = []
    for i in sel:
        if cons[i].sym and not args.no_sym:
            tasks.append(("sym", i, cons[i].opts.get("budget", budget)))
    for i in sel:
        if cons[i].con and not args.no_con:
            tasks.append(("con", i, cons[i].opts.get("con_budget", 20 if args.tier == "quick" else 200)))
    res = run_tasks(tasks, args.jobs, args.seed, args.tier, prop, args.v)
    # ---- verdict
    nobl = ndis = 0
    backends = {}
    undecided, refuted, confirmed, bounded, errors, vac = [], [], [], [], [], []
    functions, entered, solver_s = [], set(), 0.0
    runs = checked = 0
    per = []
    for i in sel:
        c = cons[i]
        if c.sym:
            functions += c.functions
        s, k = res.get(("sym", i)), res.get(("con", i))
        line = dict(contract=c.name, functions=c.functions)
        covered = None
        if s is not None:
            if "error" in s:
                undecided.append("%s: %s" % (c.name, s["error"].splitlines()[0]))
                line["sym"] = s["error"]
            else:
                o = s["obligations"]
                nobl += len(o)
                pr = [x for x in o if x[1] == "proved"]
                ndis += len(pr)
                for x in pr:
                    backends[x[2]] = backends.get(x[2], 0) + 1
                solver_s += s["solver_s"]
                for u in s["undecided"]:
                    undecided.append("%s: %s" % (c.name, u))
                for r in s["refuted"]:
                    if r.get("replay"):
                        confirmed.append((c, r["obligation"], r["replay"]))
                    else:
                        refuted.append((c, r))
                covered = s["covered"]
                entered.update(s.get("entered", ()))
                line.update(paths=s["paths"], obligations=len(o), discharged=len(pr), loops=s["loops"], undecided=s["undecided"], covered=covered, wall_s=round(s["wall_s"], 2), notes=s["notes"])
                if not o and not s["undecided"]:
                    vac.append("%s generated no obligation" % c.name)
        if k is not None:
            if "error" in k:
                errors.append("%s (concrete): %s" % (c.name, k["error"]))
            else:
                runs += k["ok"]
                checked += k["checked"]
                line.update(concrete_ok=k["ok"], concrete_skipped=k["skip"], con_wall=round(k["wall_s"], 2))
                for f in k["fails"]:
                    confirmed.append((c, f["messages"][0] if f["messages"] else "?", f))
                if k["missing"]:
                    undecided.append("%s: contract does not fit the code any more: %s" % (c.name, k["missing_msg"][0]))
                    line["missing"] = k["missing_msg"]
                elif not k["ok"] and not k["fails"]:
                    vac.append("%s: no concrete input met the precondition" % c.name)
        if s is not None and covered is False and "error" not in s and not s["undecided"] and not s["refuted"]:
            vac.append("%s: precondition not covered" % c.name)
        per.append(line)
    # a refuted obligation without input: longer guided search
    nofail = []
    if refuted and not confirmed and not args.no_con:
        idxs = sorted({i for i in sel if any(c is cons[i] for c, _ in refuted) and cons[i].con})
        res2 = run_tasks([("con", i, 30) for i in idxs for _ in (0,)], args.jobs, args.seed + 7919, "thorough", prop, args.v)
        for (kd, i), k in res2.items():
            for f in k.get("fails", []):
                confirmed.append((cons[i], f["messages"][0], f))
    ev_dir = os.environ.get("VC_EVID") or os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev_dir, "replay"), exist_ok=True)
    wall = time.time() - t0
    only_bounded = {f for i in sel if not cons[i].sym for f in cons[i].functions} - set(functions)
    bounded = sorted({c.name for c in (cons[i] for i in sel) if not c.sym})
    assumptions = list(TRUSTED) + sorted({a for i in sel for a in cons[i].opts.get("assumes", [])})
    verdict = 0
    lines = []
    if confirmed:
        c, what, rp = confirmed[0]
        path = os.path.join(ev_dir, "replay", prop + ".json")
        with open(path, "w") as f:
            json.dump(
                dict(
                    property=prop,
                    contract=c.name,
                    obligation=what,
                    functions=c.functions,
                    replay=rp,
                    others=[dict(contract=x.name, obligation=y, replay=z) for x, y, z in confirmed[1:6]],
                    refuted=[dict(contract=x.name, obligation=y["obligation"], model=y.get("model")) for x, y in refuted[:6]],
                    how="cd /verif && /opt/venv/bin/python -m vc.replay %s" % path,
                ),
                f,
                indent=1,
                default=str,
            )
        lines.append("%s / %s: %s" % (prop, c.name, what))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        verdict = 1
    elif refuted:
        c, r = refuted[0]
        path = os.path.join(ev_dir, "replay", prop + ".json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, contract=c.name, failed_obligation=r["obligation"], verifier=r, all=[dict(contract=x.name, **y) for x, y in refuted[:10]]), f, indent=1, default=str)
        lines.append("%s / %s: obligation refuted: %s" % (prop, c.name, r["obligation"]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        verdict = 1
    elif errors or vac:
        for e in errors + vac:
            lines.append("ERROR %s" % e)
        verdict = 2
    for k in known_findings(prop):
        lines.append("KNOWN-FINDING: " + k)
    ev = dict(
        property=prop,
        tier=args.tier,
        seed=args.seed,
        level="proof",
        coverage=dict(
            obligations=nobl,
            discharged=ndis,
            checker_cmd="/opt/venv/bin/python -m vc.runner %s" % prop,
            trusted_base=TRUSTED,
            explanation="obligations discharged per back end: %s; solver time %.1f s; %d functions under contract; bodies of %d functions evaluated symbolically; %d further functions only in bounded runs; bounded concrete contract runs %d with %d checks; bounded-only contracts: %s; undecided: %s"
            % (backends, solver_s, len(set(functions)), len(entered), len(only_bounded), runs, checked, ", ".join(bounded) or "none", "; ".join(undecided)[:1500] or "none"),
            evaluations=runs,
        ),
        wall_s=round(wall, 2),
        assumptions=assumptions,
        violations=len(confirmed) + len(refuted),
    )
    detail = dict(ev, functions=sorted(set(functions)), bodies=sorted(entered), bounded_functions=sorted(only_bounded), contracts=per, backends=backends, solver_s=solver_s, undecided=undecided)
    if not args.only:
        with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        with open(os.path.join(ev_dir, prop + ".detail.json"), "w") as f:
            json.dump(detail, f, indent=1, default=str)
    if args.v:
        for p in per:
            print(json.dumps(p, default=str))
        for c, w, r in confirmed[:5]:
            print("CONFIRMED", c.name, w, json.dumps(r, default=str)[:1500])
        for c, r in refuted[:5]:
            print("REFUTED", c.name, r["obligation"], r["backend"], (r.get("model") or "")[:1500])
    print("%s: %d/%d obligations discharged (%s), %d concrete contract runs, %d undecided, %.1f s" % (prop, ndis, nobl, ", ".join("%s %d" % x for x in sorted(backends.items(), key=str)), runs, len(undecided), wall))
    for u in undecided[:12]:
        print("  undecided: " + u[:300])
    for l in lines:
        print(l)
    return verdict


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
