#!/usr/bin/env python3
"""writes MANIFEST.json from vx/props.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from vx.props import PROPS, NA
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
NOTE = ("Verus accepts every obligation generated from the current source of the functions under contract (all inputs, all iterations); "
        "assumed: the models of std and of the cryptographic and zip crates in prelude/, the extraction's listed rewrites, rustc/Verus/Z3. "
        "A seeded battery on the real crates turns a failure into an input; where an edit has left what the extraction supports it decides alone, and the evidence says so (level other). ")
checks = []
for i in ids:
    if i not in PROPS: continue
    P = PROPS[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py run %s" % i, "thorough_cmd": "python3 check.py run %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": P.get("technique", "contracts on the extracted functions, discharged by Verus (Z3); bounded battery on the real crates for failing inputs"),
                   "level": P.get("level", "proof"), "level_note": NOTE + P.get("note", "")})
na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in PROPS]
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the extraction reads private items from the source and the battery goes through the public API. Known findings and repairs: KNOWN_FINDINGS. See DESIGN.md."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
