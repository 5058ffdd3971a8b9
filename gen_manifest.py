#!/usr/bin/env python3
"""Write MANIFEST.json from the table of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import meta
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in meta.CHECKS:
        t, lv, note = meta.CHECKS[p]
        checks.append({"property": p, "quick_cmd": "python3 vp/check.py " + p, "thorough_cmd": "env VERIF_TIER=thorough python3 vp/check.py " + p, "technique": t, "level": lv, "level_note": note})
na = [{"property": p, "reason": meta.NOT_APPLICABLE.get(p, "check not built yet")} for p in props if p not in meta.CHECKS]
json.dump({"version": 1, "setup_cmd": "python3 vp/build.py default serde none none_serde release alloc b64 b256 none_b64 none_b256 alloc_serde alloc_b256 std_alloc b64_256", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: abstract interpretation of MIR, rules over the compiler's resolved program, and compile-fail witnesses. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
