#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "tools"))
TECH = {
 "G": "property-based testing: generated graphs and operation histories on 1..7 MPI ranks against a reference model, with integrated shrinking",
 "B": "property-based testing: generated graphs, weights, inputs and part counts against a reference model and conservation invariants, with shrinking",
 "P": "property-based testing: generated communication histories under seeded schedule perturbation against a reference model, with shrinking",
 "M": "stateful fuzzing of legal call sequences under AddressSanitizer with hang detection and shrinking",
}
NOTE = ("Randomised search, not proof: held on every generated case. Trusts the reference model in lib/model.py and the check, "
        "the harness, Open MPI and the compiler; part counts 1..8, graphs of tens of vertices; the code under test is compiled from /repo with AddressSanitizer.")
NA = {}
checks, na = [], []
TECHX = {"M04": "metamorphic testing: generated call histories run again under seeded schedule perturbation, delays and after other work, with identical results demanded, and shrinking",
         "P06": "fault injection and property-based misuse: generated fault positions (full device, cut files) and illegal calls between generated legal traffic, against a state model, with shrinking",
         "P05": "stateful property-based testing: generated start/stop/switch histories against a life-cycle model, with shrinking"}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "checks", "check_%s.py" % p)):
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": TECHX.get(p) or TECH[p[0]], "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check yet (in progress)")})
m = {"version": 1, "setup_cmd": "python3 lib/build.py asan", "checks": checks, "not_applicable": na,
     "notes": "No hooks: /repo is compiled as it is; only 'fix:' commits were added."}
try:
    import jsonschema; jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: pass
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
