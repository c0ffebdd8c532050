#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.dont_write_bytecode = True
import props

NOTE = ("The TLA+ specification is model checked with TLC on the bounded state spaces named in the evidence; the library is bound to it by "
        "validating with TLC every event recorded while it executes the model's behaviours and seeded ones. Assurance is that of the "
        "executed histories; reals are compared up to rounding tolerances. Trusted: TLC, the Java interpretation of the reals, the driver.")
ps = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in ps:
    i = p["id"]
    if i in props.PROPS:
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "technique": "TLA+ specification model checked with TLC; model behaviours replayed in the library and recorded traces validated against the specification",
                       "level": "model_checking", "level_note": props.PROPS[i].get("note", "") + NOTE})
    else:
        na.append({"property": i, "reason": props.NOT.get(i, "the check is not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 lib/build.py", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. No hooks are needed: the library is observed through its public interface."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
