#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py and checks.py."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
from spec import P  # noqa: E402
from checks import CHECKS  # noqa: E402

NA = {}
try:
    from spec import NOT_APPLICABLE as NA  # noqa: E402
except ImportError:
    pass

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["entry"]) + "\n")

checks = []
na = []
for p in P:
    i = p["entry"]["id"]
    if i in CHECKS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": p["technique"],
            "level": p["level"],
            "level_note": (p["note"] + " " if p["note"] else "") + "Search over generated cases: shows the presence of violations, not their absence beyond what was explored.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py build-all",
    "checks": checks,
    "not_applicable": na,
    "notes": "The library is compiled from /repo's sources with clang and AddressSanitizer against stand-ins for FairLogger and PicoSHA2 (stubs/), which are not installed here. Replay a violation with: python3 check.py <ID> --replay <path>.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(checks), "claimed")
