#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py, properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks = []
for i in ids:
    if i not in CHECKS: continue
    c = CHECKS[i]
    checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
        evidence_file=f"evidence/{i}.json", technique="symbolic execution of the compiled code's LLVM IR, decided by Z3 (bit-vectors), counterexamples replayed natively",
        level="model_checking", level_note="Holds for every value of the symbolic inputs within these bounds: " + c["bounds"] + " Trusts clang's lowering, the IR interpreter and its libstdc++ models (sampled paths are replayed against a native build on every run) and Z3."))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")) for i in ids if i not in CHECKS]
m = dict(version=1, setup_cmd="bash engine/build.sh", checks=checks, not_applicable=na,
    notes="No hooks in /repo: harnesses include /repo/include directly. Solver-based bounded symbolic execution; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
