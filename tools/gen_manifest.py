"""Writes /verif/MANIFEST.json. Properties with deductive contracts are level proof;
those decided by bounded contract evaluation alone are level other."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROVED = "deductive verification (pyvc: verification conditions from the current source, z3), counter-models searched by replaying the contracts on the real code"
BOUNDED = "contracts evaluated on the real code (bounded stand-in for the deductive contract)"
PART = "deductive verification of the contracts of part of the functions (pyvc, z3); bounded contract evaluation for the rest"
exec(open(os.path.join(HERE, "tools", "levels.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in NOT_APPLICABLE:
        na.append(dict(property=i, reason=NOT_APPLICABLE[i]))
        continue
    kind, note = LEVELS[i]
    checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i} --tier quick", thorough_cmd=f"python3-vt check.py {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json", technique={"proof": PROVED, "part": PART, "bounded": BOUNDED}[kind],
                       level={"proof": "proof", "part": "other", "bounded": "other"}[kind], level_note=note))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="known findings and repaired defects: known-findings.txt; no hooks in /repo"),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
