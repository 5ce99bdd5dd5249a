#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props  # noqa: E402

root = os.path.dirname(here)
only = None
lines, checks = [], []
for p in props.PROPS:
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["q"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["obs"]},
    }))
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "technique": p["tech"], "level": "exploration", "level_note": p["note"]})
open(os.path.join(root, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
man = {"version": 1, "setup_cmd": "python3 lib/build.py py:plain py:san " + " ".join(h + ":san" for h in props.HARNESSES), "checks": checks,
       "not_applicable": props.NA, "notes": props.NOTES}
man["setup_cmd"] = man["setup_cmd"].strip()
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(man, indent=1) + "\n")
print(len(lines), "properties")
