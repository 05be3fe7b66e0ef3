"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the contracts that exist."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.props import P
from tools.notes import NOTES, NOT_APPLICABLE

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if i in NOT_APPLICABLE or not os.path.exists(os.path.join(HERE, "contracts", i.lower() + ".py")):
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no contract built yet")))
        continue
    checks.append(dict(property=i, quick_cmd="python3-vt check.py %s --tier quick" % i, thorough_cmd="python3-vt check.py %s --tier thorough" % i,
                       technique="contract-based deductive verification: contracts on the functions in /repo, obligations generated from their current source by pyvc (symbolic execution with loop invariants) and discharged by z3/cvc5",
                       level="proof", level_note=NOTES.get(i, "")[:600] or "all obligations discharged for all inputs"))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3'", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
