#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design_head.md, tools/design_props.md, the seeds and tools/design_tail.md."""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
rd = lambda n: open(os.path.join(HERE, n)).read().rstrip() + "\n"
caught = json.load(open(os.path.join(HERE, "caught.json"))) if os.path.exists(os.path.join(HERE, "caught.json")) else {}
rows = ["| planted bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    p = f"{V}/seeded/{i}/meta.json"
    if os.path.exists(p):
        m = json.load(open(p))
        rows.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {' '.join(caught.get(i, [])) or '-'} |")
open(V + "/DESIGN.md", "w").write(rd("design_head.md") + "\n" + rd("design_props.md") + "\n" + rd("design_tail.md") + "\n" + "\n".join(rows) + "\n")
