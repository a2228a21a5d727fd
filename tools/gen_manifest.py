#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the contract modules present and the list of properties."""
import json, os, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/tools/not_applicable.json"))
NOTE = json.load(open(V + "/tools/level_notes.json"))
checks = []
for i in ids:
    if os.path.exists(V + "/contracts/%s.py" % i) and i not in NA:
        checks.append(dict(property=i, quick_cmd="./check.py %s --tier quick" % i, thorough_cmd="./check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique="contract-based deductive verification (contracts and loop invariants on the extracted real code, SMT-discharged; failed obligations replayed on the compiled code)",
            level="proof", level_note=NOTE.get(i, "see DESIGN.md")))
claimed = {c["property"] for c in checks}
na = [dict(property=i, reason=NA.get(i, "no contract has been built for this property yet")) for i in ids if i not in claimed]
m = dict(version=1, setup_cmd="python3 -m compileall -q vf contracts && /opt/veriftools/pyvenv/bin/python3 -c \"import sys; sys.path.insert(0,'.'); from vf import ast; ast.prune_bin()\"", checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed,", len(na), "not applicable")
