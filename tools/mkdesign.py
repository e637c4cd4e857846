#!/usr/bin/env python3
"""mkdesign.py VH: writes DESIGN.md from design_head.md, design_tail.md, the properties, the checks' own descriptions and seedtable.tsv"""
import json, subprocess, sys, os
V = "/verif"
L = {e["ID"]: e for e in json.loads(subprocess.check_output([sys.argv[1], "list"]))}
NOTE = json.load(open(V + "/tools/design_notes.json"))
out = open(V + "/tools/design_head.md").read()
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); e = L[p["id"]]
    out += f"\n### {p['id']} {p['title']}\n\n"
    out += f"* Decided by: {e['Tech']}.\n* Executions: {e['Rule']}.\n"
    n = NOTE.get(p["id"], "")
    if n: out += f"* {n}\n"
    out += f"* Beyond the tests: {p['why_tests_cant']}\n"
tail = open(V + "/tools/design_tail.md").read()
t = "| bug | property | needs | reported by |\n|---|---|---|---|\n"
for l in open(V + "/tools/seedtable.tsv"):
    i, c = l.rstrip("\n").split("\t")
    if not os.path.exists(f"{V}/seeded/{i}/meta.json"): continue
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    t += f"| {i} | {m['property']} | {m['needs']} | {c} |\n"
tail = tail.replace("@@TABLE@@", t).replace("@@CAMPAIGN@@", open(V + "/tools/campaign_note.md").read().strip())
open(V + "/DESIGN.md", "w").write(out + tail)
