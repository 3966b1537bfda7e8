#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py and tools/props.py."""
import json, pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import properties, props
V = pathlib.Path(__file__).resolve().parent.parent
NOTE = ("Holds for every input, schedule and history within the bounds given in the evidence file and DESIGN.md: each path of the compiled code is followed with symbolic inputs, "
        "Z3 (QF_BV) decides every branch and assertion; counterexamples are replayed natively. Trusts rustc, the engine's IR semantics (cross-checked natively each run) and Z3. ")
ids = [p["id"] for p in properties.PROPERTIES]
assert len(set(ids)) == len(ids)
with open(V / "properties.jsonl", "w") as f:
    for p in properties.PROPERTIES:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
na = properties.NOT_APPLICABLE
checks = [dict(property=i, quick_cmd="python3 tools/check.py %s --tier quick" % i, thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
               evidence_file="evidence/%s.json" % i, technique=props.H[i].get("technique", "symbolic execution of the compiled LLVM IR with Z3 (bounded), differential against a reference model"),
               level=props.H[i].get("level", "model_checking"), level_note=NOTE + props.H[i].get("note", "")) for i in ids if i in props.H]
missing = [i for i in ids if i not in props.H and i not in na]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks,
         not_applicable=[dict(property=i, reason=na.get(i, "no check built yet")) for i in ids if i not in props.H],
         notes="No hooks in /repo: the harness crates under /verif reach private modules through manifests generated from /repo's current tree (tools/ws.py).")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", "not claimed:", [x["property"] for x in m["not_applicable"]])
