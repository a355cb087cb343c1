#!/usr/bin/env python3
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "bin"))
import plan
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.RAND or i in plan.MODELS or i in plan.GEN:
        t = "TLA+ specification checked with TLC"
        if i in plan.RAND: t += "; TLC validates recorded executions of the real package against it (trace validation)"
        if i in plan.GEN: t += "; TLC validates recorded executions of the compiled generated code against it (trace validation)"
        if i in plan.MODELS: t += "; behaviours of an exhaustively checked TLA+ model are replayed into the real package"
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i, "technique": t,
            "level": "model_checking", "level_note": plan.NOTES.get(i, plan.NOTE)})
    else:
        na.append({"property": i, "reason": plan.NA.get(i, "no check yet")})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
  "notes": "Every check rebuilds the driver in harness/ from /repo's working tree. No hooks in /repo: the driver observes the package through its public API."},
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
