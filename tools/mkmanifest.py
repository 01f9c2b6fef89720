#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
exec(open(os.path.join(V, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in CLAIMS: continue
    note = CLAIMS[i]
    checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick bash check.sh " + i, thorough_cmd="VERIF_TIER=thorough bash check.sh " + i,
        evidence_file="evidence/%s.json" % i,
        technique="contract-based deductive verification of the Go source (gocv: SSA weakest preconditions, z3/cvc5), failed obligations replayed on the real code",
        level="proof", level_note=note))
na = [dict(property=i, reason=NOT.get(i, "not built yet")) for i in ids if i not in CLAIMS]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="Contracts in contracts/*.gcv, verifier in gocv/, replay harnesses (bounded, never counted as proved) in replay/. No hooks in /repo: contracts are bound to functions by name and the code is read as it is.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(checks), "claimed", len(na), "not")
