#!/usr/bin/env python3
"""Assembles DESIGN.md: the hand-written parts below, plus the table of planted bugs from seeded/*/meta.json."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
body = open(os.path.join(root, "tools", "design_body.md")).read()
rows = []
caught = json.load(open(os.path.join(root, "tools", "caught.json"))) if os.path.exists(os.path.join(root, "tools", "caught.json")) else {}
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append(f"| {m['property']} | {i} | {m['needs']} | {caught.get(i, '')} |")
rows.sort()
table = "| property | planted bug | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(os.path.join(root, "DESIGN.md"), "w").write(body.replace("@@SEEDS@@", table))
