#!/usr/bin/env python3
"""writes ../DESIGN.md from design/head.md, the claims, design/bounds.json, design/tail.md and the planted bugs"""
import glob, json, os, sys

H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import meta

B = json.load(open(H + "/design/bounds.json"))
out = [open(H + "/design/head.md").read().rstrip(), "", "## Per property\n"]
out.append("For each: what is decided on the source (the rule and its oracle), the bound, and why tests do not settle it. Times are CPU time of the quick tier in this sandbox.\n")
for p in sorted(meta.META):
    m = meta.META[p]
    out.append(f"### {p} {m['title']}\n")
    out.append(f"*Rule.* {m['rule']}")
    if p in B:
        out.append(f"\n*Bounds, oracle.* {B[p]}")
    out.append(f"\n*Why not tests.* {m['why'][0].upper() + m['why'][1:]}. Ranges over: {m['text']}.\n")
for p in sorted(meta.NA):
    m = meta.NA[p]
    out.append(f"### {p} {m['title']} (not applicable)\n\n{m['reason']}\n")
rows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    f = f"{H}/design/caught.json"
    c = json.load(open(f)).get(i, "") if os.path.exists(f) else ""
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {c} |")
out.append(open(H + "/design/tail.md").read().replace("@@SEEDS@@", "\n".join(rows)))
open(V + "/DESIGN.md", "w").write("\n".join(out))
