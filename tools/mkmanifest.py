#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/*.py (docstring-like constants TECHNIQUE, NOTE) and properties.jsonl."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{V}/bin"); sys.dont_write_bytecode = True
import importlib.util
NA = {}
na = f"{V}/tools/not_applicable.json"
if os.path.exists(na):
    NA = json.load(open(na))
checks, missing = [], []
for ln in open(f"{V}/properties.jsonl"):
    pid = json.loads(ln)["id"]
    f = f"{V}/checks/{pid}.py"
    if not os.path.exists(f):
        missing.append(pid); continue
    sp = importlib.util.spec_from_file_location(pid, f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    checks.append({"property": pid, "quick_cmd": f"bin/check {pid}", "thorough_cmd": f"bin/check {pid}",
                   "technique": m.TECHNIQUE, "level": "model_checking", "level_note": m.NOTE})
json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks,
           "not_applicable": [{"property": p, "reason": NA.get(p, "no check built yet")} for p in missing],
           "notes": "TLA+ specifications in spec/, checked with TLC; conformance by validating traces recorded from the real code (harness/) against them. No hooks in /repo: observation is through the public API, link-time wrapping of pthread functions and sanitizer builds."},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", "missing", missing)
