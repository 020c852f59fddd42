#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, props.json, design_props.json and known_findings.txt."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(H + "/props.json"))["properties"]
D = json.load(open(H + "/tools/design_props.json"))
out = open(H + "/tools/design_head.md").read()
out += "\n## Properties\n\n"
for p in T:
    d = D.get(p["id"], {})
    out += "### %s %s\n\n" % (p["id"], p["title"])
    out += "- *Decided by*: %s.\n" % p["check"]["technique"]
    for k, label in (("spec", "Specified"), ("explored", "Explored"), ("oracle", "Oracle"), ("cost", "Cost"), ("reach", "Beyond tests"), ("limits", "Limits")):
        if k in d:
            out += "- *%s*: %s\n" % (label, d[k])
    out += "\n"
out += open(H + "/tools/design_tail.md").read()
S = os.path.join(H, "seeded")
if os.path.isdir(S):
    out += "\n| planted change | caught by | what it breaks | what it needs |\n|---|---|---|---|\n"
    for i in sorted(os.listdir(S)):
        m = json.load(open(os.path.join(S, i, "meta.json")))
        out += "| %s | %s quick | %s | %s |\n" % (i, m["property"], m["what_it_breaks"], m["needs"])
open(H + "/DESIGN.md", "w").write(out)
