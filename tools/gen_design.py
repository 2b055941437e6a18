#!/usr/bin/env python3
"""Rewrites the coverage table of DESIGN.md from properties.jsonl, checks.py and na.py."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from checks import CHECKS
from na import NA
out = []
for l in open(V / "properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    if i in NA:
        out.append(f"Not applicable: {NA[i]}\n")
        continue
    c = CHECKS[i]
    out.append(f"Bounds: {c['bounds']}.\n")
    if c["assumptions"]:
        out.append("Assumptions: " + "; ".join(c["assumptions"]) + ".\n")
    if c.get("note"):
        out.append(c["note"] + "\n")
    for r in c["runs"]:
        t = lambda x: "-" if x is None else ",".join(map(str, x))
        out.append(f"- `{r['h']}::{r['entry']}` quick {t(r['quick'])}, thorough {t(r['thorough'])}: {r['bound']}")
    out.append("")
f = V / "DESIGN.md"
s = f.read_text()
a, rest = s.split("<!-- coverage -->\n", 1)
b = rest.split("<!-- /coverage -->", 1)[1]
f.write_text(a + "<!-- coverage -->\n\n" + "\n".join(out) + "\n<!-- /coverage -->" + b)
