#!/usr/bin/env python3
"""Writes DESIGN.md: fixed text below, plus the facets, rules and assumptions of each property as the checks declare them.
Run with /opt/venv/bin/python (the property modules import the code under test)."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vlib import boot                                     # noqa: E402
boot.setup()
TEXT = open(os.path.join(ROOT, "tools", "design_text.md")).read()
HOW = {}
cur = None
for line in open(os.path.join(ROOT, "tools", "design_how.md")):
    if line.startswith("## "):
        cur = line[3:].strip()
        HOW[cur] = []
    elif cur:
        HOW[cur].append(line.rstrip())
out = []
for p in map(json.loads, open(os.path.join(ROOT, "properties.jsonl"))):
    m = importlib.import_module("props." + p["id"].lower())
    out.append("### %s. %s\n" % (p["id"], p["title"]))
    out.append("\n".join(HOW[p["id"]]).strip() + "\n")
    out.append("Beyond the tests: " + p["why_tests_cant"] + "\n")
    out.append("| facet | cases quick / thorough | domain and rule for a non-trivial case |")
    out.append("|---|---|---|")
    for f in m.FACETS:
        if f.exhaustive:
            n = len(f.strategy())
            cases = "%d (exhaustive list)" % n
        else:
            cases = "%d / %d" % (f.quick, f.thorough)
        out.append("| %s | %s | %s |" % (f.name, cases, f.rule))
    out.append("")
    if m.ASSUMPTIONS:
        out.append("Bounds and assumptions: " + "; ".join(m.ASSUMPTIONS) + ".\n")
sd = os.path.join(ROOT, "seeded")
res = json.load(open(os.path.join(ROOT, "tools", "seeded_results.json")))
rows = ["| planted bug | property | needs | caught by the quick check |", "|---|---|---|---|"]
for d in sorted(os.listdir(sd)):
    meta = json.load(open(os.path.join(sd, d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, meta["property"], meta["needs"], res.get(d, "not run")))
fx = ["| property | commit | what failed |", "|---|---|---|"]
for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["fixed"]:
    _, prop, commit, what = k.split(" ", 3)
    fx.append("| %s | %s | %s |" % (prop.split("=")[1], commit, what))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(
    TEXT.replace("@@PROPERTIES@@", "\n".join(out)).replace("@@SEEDED@@", "\n".join(rows)).replace("@@FIXED@@", "\n".join(fx)))
print("written")
