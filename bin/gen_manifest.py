#!/usr/bin/env python3
"""Regenerate MANIFEST.json from props.PROPS and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props

ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
checks = []
for i in ids:
    if i not in props.PROPS:
        continue
    p = props.PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 bin/check.py %s quick" % i,
        "thorough_cmd": "python3 bin/check.py %s thorough" % i,
        "technique": p.technique,
        "level": p.level,
        "level_note": p.note,
    })
na = [{"property": i, "reason": props.NOT_APPLICABLE.get(i, "check not built yet")} for i in ids if i not in props.PROPS]
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the public API exposes all the state the specification talks about. "
              "known-findings.txt lists the defects found and repaired."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
