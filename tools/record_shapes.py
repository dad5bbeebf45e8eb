#!/usr/bin/env python3
"""Development tool: records the shape of the functions the contracts were written for (contracts/shape.json)."""
import json, sys
sys.path.insert(0, "/verif/tools")
import check
from props import BUNDLES
check.build_vx()
out = {}
for b in BUNDLES:
    r = check.run_bundle(b)
    print(b, r["ok"], r["verified"], r["errors"], r["why"][:2])
    out[b] = check.shapes(r)
json.dump(out, open("/verif/contracts/shape.json", "w"), indent=0, sort_keys=True)
