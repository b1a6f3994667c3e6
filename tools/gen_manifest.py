"""Writes MANIFEST.json."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.plans import PLANS  # noqa: E402

NOTES = {}
DEFAULT = ("Every observed run of the real tool (exit status, diagnostics, registrations performed by the compiled module) "
           "has to be a behaviour of the TLA+ specification; programs come from exhaustive bounded universes enumerated by "
           "TLC and from seeded random generation. Trusts g++, clang's front end and the recording stand-in for pybind11.")
NOT_APPLICABLE = []

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line)["id"] for line in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in props:
    if p not in PLANS:
        NOT_APPLICABLE.append({"property": p, "reason": "check not built yet"})
        continue
    checks.append({
        "property": p,
        "quick_cmd": "python3 -m vf.check %s" % p,
        "thorough_cmd": "python3 -m vf.check %s --thorough" % p,
        "technique": "TLA+ specification checked with TLC, bound to the tool by trace validation",
        "level": "model_checking",
        "level_note": NOTES.get(p, DEFAULT),
    })
manifest = {"version": 1, "setup_cmd": "python3 -m vf.build", "checks": checks, "not_applicable": NOT_APPLICABLE,
            "notes": "No hooks in /repo: the tool's output is observed from outside."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
