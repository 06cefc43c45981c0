#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, profiles.py and the notes here."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from profiles import PROFILES, NOTES, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROFILES:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with fault injection: seeded schedules, faults and histories on the real code under a simulated kernel",
            "level": "exploration", "level_note": NOTES.get(i, "") + " Sampled, not exhaustive: assurance is that of the seeds run. Trusts the simulated kernel and the oracle of the property."})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")})
json.dump({"version": 1, "setup_cmd": "python3 build.py fast && python3 build.py asan", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: calls to libc, libdevmapper, libblkid, libuuid and readline are redirected at link time (objcopy --redefine-syms) into the simulated kernel. Replay a counterexample with: python3 check.py replay FILE"},
  open(V + "/MANIFEST.json", "w"), indent=1)
