#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, core

NOT_APPLICABLE = {
    "C23": "The translator is a C# program; no .NET runtime or compiler is installed here, so its behaviour cannot be "
           "observed and no specification can be bound to it.",
}
NOTE = ("Exhaustive TLC exploration of the specification within the recorded constants; every transition replayed is "
        "executed in the library built (AddressSanitizer) from the working tree, and TLC decides for every recorded event "
        "whether the specification allows it. Beyond the small scope: seeded random sessions biased to boundaries, not "
        "exhaustive. Trusted: TLC, the driver's encoding of values, g++ on x86-64 Linux.")
EXTRA = {}
reg = check.registry()
props = [json.loads(l) for l in open(os.path.join(core.VERIF, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tool/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in reg:
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 tool/check.py %s --tier quick" % i,
            "thorough_cmd": "python3 tool/check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification checked with TLC; its transitions replayed in the real library; recorded "
                         "traces checked against the specification by TLC",
            "level": "model_checking",
            "level_note": EXTRA.get(i, "") + NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(
            i, "No check has been built for this property yet.")})
m["notes"] = "One engine (tool/check.py, tool/core.py) for all checks; specifications in spec/, drivers in driver/."
json.dump(m, open(os.path.join(core.VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
