#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (props.json)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
T = json.load(open(os.path.join(H, "props.json")))
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in T["properties"]:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
checks = []
for p in T["properties"]:
    if p.get("check") is None:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./run.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./run.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["check"]["technique"],
        "level": "model_checking",
        "level_note": p["check"]["note"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "./run.py --build",
    "hooks": {"guard": "none", "enable": "no hooks: the harnesses compile /repo/src in place", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in T["properties"] if p.get("check") is None],
    "notes": T["notes"],
}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
