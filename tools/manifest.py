#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json: a property is claimed when it has contracts/<id>.py and a NOTES entry."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
NA = {}
exec(open(os.path.join(V, "tools/notes.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in NOTES and os.path.exists(os.path.join(V, "contracts/%s.py" % p.lower())):
        checks.append(dict(property=p, quick_cmd="./check.sh %s" % p, thorough_cmd="VERIF_TIER=thorough ./check.sh %s" % p, evidence_file="evidence/%s.json" % p,
                           technique="contract-based deductive verification: contracts on the functions in /repo, verification conditions generated from the LLVM IR clang makes of the current sources, discharged by z3/cvc5",
                           level="proof", level_note=NOTES[p]))
    else: na.append(dict(property=p, reason=NA.get(p, "not built yet")))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3; print(z3.get_version_string())' && clang --version | head -1",
         checks=checks, not_applicable=na, notes="See DESIGN.md. No hooks in /repo; only fix: commits.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
