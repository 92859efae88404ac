#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/harness")
from engines import ENGINES
NA = {}
TECH = "TLA+ specification: small models explored exhaustively with TLC, tours through their transitions replayed on the library, and trace validation with TLC of recorded executions"
NOTE = ("spec/Laws.tla is checked on every state and step of the property's small models (spec/MC.tla, harness/models.py); their transitions and long random executions (operations chosen from the observed state) "
        "run on the library and TLC checks each step against spec/Iidm.tla: outcome, answer, and the observed state in all variants. Assurance is that of the executions explored; it trusts the projection in driver/ and TLC.")
OWN = {"M01": NOTE + " Electrical states are compared in exact Gaussian rational arithmetic (spec/Electric.tla) on a lattice of parameters, voltages and currents; nothing is said outside it.",
       "G01": NOTE.replace("Laws.tla is", "MCGraph.tla holds laws").replace("spec/MC.tla, ", "").replace("spec/Iidm.tla", "spec/Graph.tla").replace(" in all variants", "").replace("laws checked", "laws, checked"),
       "V03": NOTE + " Concurrent executions on real threads are judged by the same specification, whose steps are atomic; that the library's steps on different variants touch no common memory is watched by ThreadSanitizer during the same executions."}
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ENGINES:
        t, note = TECH, OWN.get(i, NOTE)
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/build.py plain && mkdir -p evidence", "checks": checks, "not_applicable": na,
     "notes": "Specification language: TLA+, checked with TLC. No hooks are needed in /repo: the public API exposes the state."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
