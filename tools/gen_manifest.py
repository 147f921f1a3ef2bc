#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and vp/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vp"))
import props
NA = getattr(props, "NOT_APPLICABLE", {})
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if hasattr(props, "get_" + i):
        g = props.get(i, "quick")
        checks.append({"property": i, "quick_cmd": "python3-vt vp/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3-vt vp/check.py %s --tier thorough" % i,
                       "technique": g.get("technique", "contract-based deductive verification: obligations from the LLVM IR of the current source, discharged by z3/kissat"),
                       "level": g.get("level", "proof"),
                       "level_note": g.get("note", "every obligation is decided for all inputs of each listed posit type (templates are covered instance by instance)")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
