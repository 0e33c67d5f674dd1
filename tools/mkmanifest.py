#!/usr/bin/env python3
"""writes MANIFEST.json from engine/props.py"""
import json, os, sys
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, d + "/engine")
from props import PROPS, PROOF, LEVEL_TXT, NA
ids = [json.loads(l)["id"] for l in open(d + "/properties.jsonl")]
checks = []
for i in ids:
    if i in NA: continue
    proof = i in PROOF
    note = LEVEL_TXT.get(i) or ("Contracts on the functions the property depends on, every obligation discharged by z3 for all inputs; dependency functions are assumed by contract (listed in the evidence). A bounded replay of the same postconditions runs beside it." if proof else "Contracts proved for part of the functions (listed in the evidence); the rest of the property is decided by a bounded check of the same postconditions on the real code, labelled bounded.")
    checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i}", technique="contract-based deductive verification of the compiled code's MIR (symbolic execution, inferred loop invariants, z3)" + ("" if proof else "; bounded replay of the contracts for the functions out of reach"), level="proof" if proof else "exploration", level_note=note))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i in NA], notes="Known findings: known-findings.txt. No hooks in /repo."), open(d + "/MANIFEST.json", "w"), indent=1)
