#!/usr/bin/env python3
"""Assembles DESIGN.md."""
import json, os, re, sys, glob, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{V}/bin"); sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
res = json.load(open(f"{V}/tools/seed_results.json")) if os.path.exists(f"{V}/tools/seed_results.json") else {}
seeds = {}
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(d)); seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
o = [open(f"{V}/tools/design_head.md").read().rstrip(), "", "## 5. The properties, one by one", ""]
for p in props:
    i = p["id"]; f = f"{V}/checks/{i}.py"
    if not os.path.exists(f):
        o += [f"### {i} — {p['title']}", "", "No check.", ""]; continue
    src = open(f).read()
    sp = importlib.util.spec_from_file_location(i, f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    models = sorted(set(re.findall(r'"(\w+)\.tla", (?:ctx\.pick\()?"(\w+\.cfg)"', src)))
    tr = sorted(set(re.findall(r'"(\w+Trace)\.tla"', src)))
    harn = sorted(set(re.findall(r'"(\w+\.cpp)"', src)))
    asm = re.search(r"ctx\.assumptions = \[(.*?)\]\s*$", src, re.S | re.M)
    asm = re.findall(r'"((?:[^"\\]|\\.)*)"', asm.group(1)) if asm else []
    o += [f"### {i} — {p['title']}", "", p["statement"], "", f"* **Decided by**: {m.TECHNIQUE}.", f"* **Covers**: {m.NOTE}"]
    for mod, cfg in models:
        if cfg.startswith("Trace"): continue
        if any(x in cfg for x in ("unpredicated", "sharedscratch", "unguarded")): o.append(f"* **Negative design model**: `{mod}.tla` ({cfg}) must be *rejected* by TLC."); continue
        c = open(f"{V}/spec/{cfg}").read()
        inv = " ".join(re.findall(r"^(?:INVARIANTS?|PROPERT(?:Y|IES))\s+(.*)$", c, re.M))
        consts = " ".join(re.findall(r"^\s*(\w+ (?:=|<-) .*)$", c, re.M))
        o.append(f"* **Design model**: `{mod}.tla` ({cfg}: {consts[:200]}) — checked: {inv}.")
    if tr: o.append(f"* **Trace specification**: {', '.join('`%s.tla`' % t for t in tr)}; recorded by {', '.join('`harness/%s`' % h for h in harn if os.path.exists(f'{V}/harness/{h}'))}.")
    if asm: o.append("* **Assumptions and bounds**: " + "; ".join(asm) + ".")
    if i in seeds: o.append("* **Planted bugs**: " + ", ".join(f"{s} ({'caught' if res.get(s, {}).get(i) == 1 else 'missed' if s in res else 'not run'})" for s, _ in seeds[i]) + ".")
    o.append("")
o += ["## 6. Genuine defects found", "", "Each is one `fix:` commit in /repo and a `fixed:` line in `known_findings.txt` (which suppresses nothing). A `known:` line is a defect that is recorded and not repaired; the check prints it as KNOWN-FINDING and still reports any other.", ""]
o += ["* " + l.strip()[len("fixed: "):] for l in open(f"{V}/known_findings.txt") if l.startswith("fixed:")]
kn = [l.strip() for l in open(f"{V}/known_findings.txt") if l.startswith("known")]
o += ["* " + l for l in kn]
o += ["", "## 7. Planted bugs and what catches them", "", "Each was confirmed in a scratch copy: builds, passes the stable tests, its demonstration passes without and fails with it.", "",
      "| bug | property | needs | caught by |", "|---|---|---|---|"]
for i in sorted(seeds):
    for s, m in seeds[i]:
        r = res.get(s, {})
        o.append(f"| {s} | {i} | {m['needs'].replace('|', '/')} | {', '.join(k for k, v in sorted(r.items()) if v == 1) or ('**missed**' if r else 'not run')} |")
o += ["", open(f"{V}/tools/design_tail.md").read().rstrip() if os.path.exists(f"{V}/tools/design_tail.md") else ""]
open(f"{V}/DESIGN.md", "w").write("\n".join(o) + "\n")
