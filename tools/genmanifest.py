#!/usr/bin/env python3
"""Rewrites MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
NA = {}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    p = PROPS.get(i)
    if not p:
        na.append({"property": i, "reason": NA.get(i, "its check is not built yet")})
        continue
    q, t = p["tiers"]["quick"], p["tiers"]["thorough"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": p.get("technique", "stateful property-based testing against a reference model (seeded generation, shrinking, replay) under AddressSanitizer and in the release build"),
        "level": p.get("level", "exploration"),
        "level_note": "Generated-input search, no proof: nothing was found on the cases of this run (counts in the evidence file). " + p["rule"][0].upper() + p["rule"][1:] + ". Assumes: " + "; ".join(p["assumptions"]) + ". Trusts: gcc 12, the C library, libstdc++ as the reference, lib/pbt.h.",
    })
m = {"version": 1,
     "setup_cmd": "python3 check.py --setup",
     "checks": checks, "not_applicable": na,
     "notes": "All checks: check.py ID. Each stages /repo's working tree in /verif/build, configures and builds it there in two flavours (AddressSanitizer with assertions; the project's release flags with a guarded allocator) and runs harness/<id>.cc against it. No hooks in /repo are needed. Findings and repairs: known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")
