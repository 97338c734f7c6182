"""python -m vc.replay FILE : runs the failing input of a replay file against the real code."""
import json
import os
import sys


def main():
    os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
    sys.path.insert(0, os.environ.get("VC_REPO", "/repo"))
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    d = json.load(open(sys.argv[1]))
    from . import explore, runner, spec

    runner.load(d["property"])
    con = [c for c in spec.REGISTRY[d["property"]] if c.name == d["contract"]][0]
    rp = d.get("replay")
    if not rp:
        print("no failing input in this file; failed obligation: %s" % d.get("failed_obligation"))
        return 0
    print(json.dumps(rp["values"], indent=1))
    st, _, info = explore.run_concrete(con, rp.get("seed", 0), explore.unjson(rp["values"]))
    print(st, info)
    return 1 if st == "fail" else 0


if __name__ == "__main__":
    sys.exit(main())
