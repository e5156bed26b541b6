#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the tables below (run by hand, output committed)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.table import P, NA  # noqa: E402
from irvc.props import PROPS  # noqa: E402

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid, p in P.items():
        f.write(json.dumps(dict(id=pid, title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                             observe_at=p.get("obs", []), hook_needed=None))) + "\n")
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, (pid, p["statement"])
checks = []
na = []
for pid, p in P.items():
    if pid in NA:
        na.append(dict(property=pid, reason=NA[pid]))
        continue
    if pid not in PROPS:
        na.append(dict(property=pid, reason="not claimed yet: no contract within reach has been built for it so far"))
        continue
    checks.append(dict(property=pid, quick_cmd="python3-vt check.py %s --tier quick" % pid,
                       thorough_cmd="python3-vt check.py %s --tier thorough" % pid,
                       technique="contract-based deductive verification of the compiled sources (irvc VCs + z3), failing inputs replayed on the real code",
                       level="proof", level_note=p["note"]))
m = dict(version=1, setup_cmd="python3-vt tools/selfcheck.py", checks=checks, not_applicable=na,
         notes="No hooks: contracts live in /verif/contracts and are attached to /repo's functions at verification time; "
               "fix: commits in /repo are listed in known-findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
