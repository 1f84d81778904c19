#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
checks, na = [], []
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {k: p[k] for k in ("id", "title", "statement")}
        assert len(p["title"]) <= 80, p["id"]
        d["quantifier"] = {"over": p["over"], "text": p["quant"]}
        d["why_tests_cant"] = p["tests"]
        d["anchors"] = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p.get("state"): d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p.get("observe"): d["anchors"]["observe_at"] = p["observe"]
        d["anchors"]["hook_needed"] = None
        f.write(json.dumps(d) + "\n")
        if p.get("na"):
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"./check {p['id']} quick",
                "thorough_cmd": f"./check {p['id']} thorough",
                "technique": "deterministic simulation with fault injection",
                "level": "exploration",
                "level_note": p["note"],
            })
man = {
    "version": 1,
    "setup_cmd": "./check build",
    "hooks": {"guard": "none", "enable": "no hooks in /repo: the seams are generic parameters, callbacks, wrapper crates that compile /repo's sources against simulated dependencies, and interposed libc symbols in the harness", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "see DESIGN.md; the table behind this file and properties.jsonl is tools/props.py",
}
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
