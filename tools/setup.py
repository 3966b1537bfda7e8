#!/usr/bin/env python3
"""Builds the engine and every harness crate; the checks rebuild what is stale themselves."""
import sys, pathlib
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import check, props, ws
ws.generate()
check.build_engine()
for c in sorted({r.get("crate", s["crate"]) for s in props.H.values() if "ts" not in s for r in s["runs"]}):
    check.build_harness(c)
