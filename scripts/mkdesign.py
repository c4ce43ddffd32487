#!/usr/bin/env python3
"""Fills scripts/design.tmpl.md into DESIGN.md: bounds from the harnesses, cost from evidence/ (kept from the old file if absent), planted bugs."""
import os, re, glob, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
old = open(V + "/DESIGN.md").read() if os.path.exists(V + "/DESIGN.md") else ""
rows = ["| check | bounds | paths / assertions / queries / wall |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/harness/[A-Z]*.cc")):
    n = os.path.basename(f)[:-3]; d = {}
    for l in open(f):
        m = re.match(r"//@\s*(\w+):\s*(.*)", l)
        if m: d[m.group(1)] = (d.get(m.group(1), "") + " " + m.group(2)).strip()
    b = d.get("bounds", "")
    for t in ("quick", "thorough"):
        if d.get("bounds_" + t): b += "; *%s*: %s" % (t, d["bounds_" + t])
    c = "see " + n.split("_")[0] if "_" in n else ""
    e = V + "/evidence/%s.json" % n
    if "_" not in n:
        if os.path.exists(e):
            j = json.load(open(e)); k = j["coverage"]
            if j["tier"] == "quick": c = "%d / %d / %d / %.0f s" % (k["paths"], k["assertions_checked"], k["queries"], j["wall_s"])
        if not c:
            m = re.search(r"^\| %s \|.*\| ([^|]*) \|$" % n, old, re.M)
            c = m.group(1) if m else ""
    rows.append("| %s | %s | %s |" % (n, b.replace("|", "/"), c))
caught = json.load(open(V + "/scripts/seeds/caught.json")) if os.path.exists(V + "/scripts/seeds/caught.json") else {}
sr = ["| id | property | needs | result |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = f.split("/")[-2]; j = json.load(open(f))
    sr.append("| %s | %s | %s | %s |" % (i, j["property"], j["needs"], caught.get(i, "caught by " + j["property"])))
t = open(V + "/scripts/design.tmpl.md").read()
mu = open(V + "/scripts/mutation.md").read().strip() if os.path.exists(V + "/scripts/mutation.md") else "(in progress)"
open(V + "/DESIGN.md", "w").write(t.replace("@@TABLE@@", "\n".join(rows)).replace("@@SEEDS@@", "\n".join(sr)).replace("@@MUTATION@@", mu))
