#!/usr/bin/env python3
"""Fills the property and planted-bug tables of DESIGN.md (between the markers)."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
t = open(root + "/DESIGN.md").read()
rows = []
for p in PROPS:
    if p.get("na"): continue
    rows.append(f"### {p['id']}: {p['title']}\n\n{p['statement']}\n\n* quantified over: {p['quant']}\n* decided by: {p['note']}\n* beyond the tests: {p['tests']}\n" + (p["design"] + "\n" if p.get("design") else ""))
t = re.sub(r"(<!-- properties -->).*?(<!-- /properties -->)", lambda m: m[1] + "\n" + "\n".join(rows) + m[2], t, flags=re.S)
caught = json.load(open(here + "/caught.json")) if os.path.exists(here + "/caught.json") else {}
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, '')} |")
t = re.sub(r"(<!-- seeded -->).*?(<!-- /seeded -->)", lambda m: m[1] + "\n" + "\n".join(rows) + "\n" + m[2], t, flags=re.S)
F = [json.loads(l) for l in open(root + "/known_findings.jsonl") if l.strip()]
rows = ["| commit | property | defect |", "|---|---|---|"]
rows += [f"| {f['commit']} | {f['property']} | {f['what'].split(f['commit'] + ' ', 1)[1]} |" for f in F if f["status"] == "fixed"]
t = re.sub(r"(<!-- fixed -->).*?(<!-- /fixed -->)", lambda m: m[1] + "\n" + "\n".join(rows) + "\n" + m[2], t, flags=re.S)
rows = [f"* {f['property']} `{f['sig']}`: {f['what']}." for f in F if f["status"] == "known"]
t = re.sub(r"(<!-- known -->).*?(<!-- /known -->)", lambda m: m[1] + "\n" + "\n".join(rows) + "\n" + m[2], t, flags=re.S)
open(root + "/DESIGN.md", "w").write(t)
