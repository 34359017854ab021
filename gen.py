#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.abspath(__file__))
TECH = {"kani": "function contracts discharged by Kani/CBMC on the real code", "verusc32": "Verus proof of the mechanically extracted functions",
        "regexeq": "automaton equivalence of the pattern", "clarity": "weakest preconditions of the Clarity functions to z3"}
with open(f"{V}/properties.jsonl", "w") as f:
    for i, p in sorted(PROPS.items()):
        f.write(json.dumps(dict(id=i, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=p["mech"]))) + "\n")
    for n in NOT_APPLICABLE:
        f.write(json.dumps(n["entry"]) + "\n")
checks = []
for i, p in sorted(PROPS.items()):
    kinds = []
    for x in p["parts"]:
        t = TECH[x["kind"]]
        if t not in kinds: kinds.append(t)
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} thorough", evidence_file=f"evidence/{i}.json",
                       technique="deductive verification: " + "; ".join(kinds), level=p["level"], level_note=p["note"]))
json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks,
               not_applicable=[dict(property=n["entry"]["id"], reason=n["reason"]) for n in NOT_APPLICABLE]), open(f"{V}/MANIFEST.json", "w"), indent=1)
