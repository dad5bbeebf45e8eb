#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/props.py."""
import json, sys
sys.path.insert(0, "/verif/tools")
from props import PROPS, NOTES, TECHNIQUE, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=[], not_applicable=[],
         notes="Every check extracts the sources from /repo's working tree again, verifies every obligation with Verus, and runs a short search on the real code beside the proof. See DESIGN.md.")
for i in ids:
    if i in PROPS:
        m["checks"].append(dict(property=i, quick_cmd=f"python3 tools/check.py {i} quick", thorough_cmd=f"python3 tools/check.py {i} thorough", technique=PROPS[i].get("technique", TECHNIQUE), level="proof",
                                level_note=PROPS[i].get("note", NOTES[i[0]])))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "not yet covered: contracts for this part are still to be written")))
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
