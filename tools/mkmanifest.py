#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import checks
NA = getattr(checks, "NOT_APPLICABLE", {})
T = "symbolic execution of the compiled code (LLVM IR) with Z3, over inputs and bounded thread schedules"
N = "Bounded: holds for every input value and every schedule within the bounds listed in the evidence (delay-bounded schedules, small graphs); assumes sequentially consistent memory and the thread/clock/allocator models in engine/; trusts clang, Z3 and the executor, whose paths are sampled and replayed natively."
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in checks.CHECKS: m["checks"].append({"property": i, "quick_cmd": "python3 run.py check %s --tier quick" % i, "thorough_cmd": "python3 run.py check %s --tier thorough" % i, "technique": T, "level": "model_checking", "level_note": N + (" " + checks.CHECKS[i].get("note", "")).rstrip()})
    else: m["not_applicable"].append({"property": i, "reason": NA.get(i, "no harness for it yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
