#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
WHY = "A pure function of its arguments: no schedule, clock, I/O, callback failure or history enters it, so there is nothing for a simulator to schedule or a fault to hit; deciding it is numerical analysis over inputs. "
NA = {
 "N01": WHY + "(That these functions stay pure under any schedule and history is C02, their error reports C14.)",
 "N02": WHY + "(Isolation, memory exhaustion and sharing of the same routines: C02, C10, C18.)",
 "N05": WHY, "N06": WHY, "N07": WHY + "(Incremental histogram statistics over a delivery history: C15.)",
 "N08": WHY + "(The step-by-step history of an ODE solution is C17.)",
 "N09": WHY, "N10": WHY,
}
checks = []
for p in ids:
    if p in PROPS:
        c = PROPS[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "deterministic simulation with fault injection: " + c["technique"],
            "level": "exploration",
            "level_note": c["note"]})
na = [{"property": p, "reason": NA.get(p, "Not built yet.")} for p in ids if p not in PROPS]
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
  "notes": "No hooks were added to /repo: the code's own seams (user callbacks, PRNG functions, streams, operator new, thread-local errno, OpenMP entry points) and compile-time instrumentation of the harness carry every fault and schedule decision."},
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
