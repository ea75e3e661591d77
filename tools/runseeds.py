#!/usr/bin/env python3
"""runseeds.py [id...]: apply each planted bug to /repo in turn, run the check of its property (and META 'also'), undo; results to tools/seed_results.json."""
import json, os, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = f"{V}/tools/seed_results.json"
res = json.load(open(R)) if os.path.exists(R) else {}
ids = sys.argv[1:] or sorted(os.path.basename(os.path.dirname(x)) for x in glob.glob(f"{V}/seeded/*/meta.json"))
for s in ids:
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    if subprocess.run(["git", "-C", "/repo", "apply", f"{V}/seeded/{s}/patch.diff"]).returncode:
        print(s, "does not apply"); continue
    try:
        r = subprocess.run([f"{V}/bin/check", m["property"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
        ok = r.returncode == 1 and "VIOLATION property=" in r.stdout
        res[s] = {m["property"]: 1 if ok else (r.returncode if r.returncode != 1 else 3)}
        if r.returncode not in (0, 1): print(r.stdout[-600:])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    print(s, res[s], flush=True)
    json.dump({k: v for k, v in sorted(res.items()) if os.path.isdir(f"{V}/seeded/{k}")}, open(R, "w"), indent=1)
