#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from units.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from units import PROPS, NOT_APPLICABLE
TECH = "contract-based deductive verification: obligations generated from the clang AST of the real code, discharged by z3/cvc5; failing inputs searched by native replay"
checks = []
for l in open(H + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p not in PROPS:
        continue
    checks.append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=PROPS[p].get("technique", TECH), level=PROPS[p].get("level", "proof"),
                       level_note=PROPS[p].get("note", "") + " Trusted: clang front end, the cppvc verification-condition generator and its models of std/absl/libc/crypto-library functions, z3/cvc5. Assumes total piece length < 2^62, no aliasing of inputs and outputs. A unit that leaves the verifier's subset on a changed tree is reported as bounded (native oracle only) in the evidence, never as proved."))
na = [dict(property=k, reason=v) for k, v in sorted(NOT_APPLICABLE.items()) if k not in PROPS]
m = dict(version=1, setup_cmd="python3 -c 'import os; os.makedirs(\"evidence\", exist_ok=True)'", checks=checks, not_applicable=na,
         hooks=dict(guard="(none)", enable="no hooks were added to /repo", source_commits=[]),
         notes="Every check re-extracts and re-verifies /repo's current tree; nothing is cached between runs.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
