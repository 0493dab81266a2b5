#!/usr/bin/env python3
"""Writes DESIGN.md from the text below, properties.jsonl, props.py, known_findings.json and tools/seed_results.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NA
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
HEAD = open(V + "/tools/design_head.md").read()
HOW = {}
cur = None
for l in open(V + "/tools/design_how.md"):
    if l.startswith("## "):
        cur = l[3:].strip()
        HOW[cur] = ""
    elif cur:
        HOW[cur] += l
o = [HEAD, "\n## 4. Properties, one by one\n"]
for p in props:
    i = p["id"]
    o.append(f"\n### {i} {p['title']}\n")
    if i in PROPS:
        o.append(HOW.get(i, "").strip() + "\n")
        o.append(f"\n*Harness:* " + ", ".join(f"`harness/{t}.cpp`" for t in PROPS[i]["tus"]) + ".  *Bounds:* " + PROPS[i]["bounds"] + ".\n")
    else:
        o.append("Not applicable: " + NA[i] + ".\n")
o.append(open(V + "/tools/design_tail.md").read())
k = json.load(open(V + "/known_findings.json"))["findings"]
o.append("\n## 7. Defects found in the pinned tree\n\nEach was reported by a check as a violation on the unchanged tree, replayed natively, and repaired by a `fix:` commit (the check reports it again if it returns), or recorded.\n\n| property | commit | what failed |\n|---|---|---|\n")
for f in k:
    if f["status"] == "fixed":
        o.append(f"| {f['property']} | {f['commit']} | {f['what']} |\n")
o.append("\nRecorded, not repaired (printed as KNOWN-FINDING; identified by harness case and label):\n\n")
for f in k:
    if f["status"] == "open":
        o.append(f"- **{f['id']}** ({f['property']}): {f['what']}\n")
sr = V + "/tools/seed_results.json"
if os.path.exists(sr):
    o.append("\n## 8. Planted bugs (`seeded/`)\n\n| id | property | what it breaks | needs | result |\n|---|---|---|---|---|\n")
    for s in json.load(open(sr)):
        m = json.load(open(f"{V}/seeded/{s['id']}/meta.json"))
        o.append(f"| {s['id']} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {s['result']} |\n")
    if os.path.exists(V + "/tools/design_seeds.md"):
        o.append("\n" + open(V + "/tools/design_seeds.md").read())
open(V + "/DESIGN.md", "w").write("".join(o))
