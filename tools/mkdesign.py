#!/usr/bin/env python3
"""Writes DESIGN.md: fixed text from tools/design_head.md / design_tail.md and one section per property from the check modules."""
import ast, json, os
M = {c["property"]: c for c in json.load(open("MANIFEST.json"))["checks"]}
out = [open("tools/design_head.md").read()]
for l in open("properties.jsonl"):
    d = json.loads(l)
    p = d["id"]
    t = ast.parse(open(f"mc/checks/{p.lower()}.py").read())
    c = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", None) in ("LEVEL", "RULE", "ASSUMPTIONS")}
    out += [f"### {p} {d['title']}", "", f"*Decided by:* {M[p]['technique']} (level `{c['LEVEL']}`).", "", f"*Explored space (alphabet and bounds):* {c['RULE']}.", "",
            f"*Oracle and trust:* {M[p]['level_note']}", "", "*Assumptions:* " + "; ".join(c["ASSUMPTIONS"]) + ".", "", f"*Why tests cannot settle it:* {d['why_tests_cant']}", ""]
out.append(open("tools/design_tail.md").read())
if os.path.exists("tools/matrix.md"):
    out.append(open("tools/matrix.md").read())
open("DESIGN.md", "w").write("\n".join(out))
