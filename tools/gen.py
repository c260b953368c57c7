#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the table in tools/props.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE

with open(os.path.join(ROOT, "properties.jsonl"), "w") as out:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        out.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["for_all"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w}
                                      for n, w in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")

claimed = [p for p in PROPS if p["id"] not in NOT_APPLICABLE]
man = {
    "version": 1,
    "setup_cmd": "python3 -m compileall -q qsa",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 -m qsa %s --tier quick" % p["id"],
        "thorough_cmd": "python3 -m qsa %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": "other",
        "level_note": p["note"],
    } for p in claimed],
    "not_applicable": [{"property": k, "reason": v}
                       for k, v in sorted(NOT_APPLICABLE.items())],
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as out:
    json.dump(man, out, indent=1)
    out.write("\n")
print("%d properties, %d claimed" % (len(PROPS), len(claimed)))
