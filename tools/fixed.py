#!/usr/bin/env python3
"""developer aid: records a repair: fixed.py PROPERTY COMMIT WHAT"""
import json, pathlib, sys
f = pathlib.Path(__file__).resolve().parent.parent / "known_findings.json"
d = json.loads(f.read_text())
d["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
f.write_text(json.dumps(d, indent=1) + "\n")
