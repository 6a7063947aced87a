#!/usr/bin/env python3
"""Rewrites DESIGN.md's table of planted bugs from seeded/*/meta.json and the catch results."""
import json, os, re, sys
ROOT = os.path.abspath(os.path.join(os.path.dirname(__file__), "..", ".."))
FIRST = "B02 B10 B30 B36 B44 B45 B51 B60 B70 B75 B76 B80 B86 B105 B126 B127 B132 B142 B160 B161 B169 B181 B185 B187".split()
LATER = os.path.join(os.path.dirname(__file__), "missed_first.txt")
if os.path.exists(LATER):
    FIRST += open(LATER).read().split()
res = json.load(open(sys.argv[1] if len(sys.argv) > 1 else "/tmp/seedwork/results.json"))
rows = ["| bug | check | what it breaks | caught by |", "|---|---|---|---|"]
n = 0
for b in sorted(os.listdir(f"{ROOT}/seeded"), key=lambda x: int(x[1:])):
    m = json.load(open(f"{ROOT}/seeded/{b}/meta.json"))
    r = res.get(b, {})
    hit = sorted(k for k, v in r.items() if v == "caught")
    note = " (missed at first)" if b in FIRST else ""
    n += 1
    what = m["what_it_breaks"].replace("|", "/")
    rows.append(f"| {b} | {m['property']} | {what} | {', '.join(hit) or 'none'}{note} |")
text = open(f"{ROOT}/DESIGN.md").read()
a, z = "<!-- bugs -->", "<!-- /bugs -->"
new = f"{a}\n{n} planted bugs:\n\n" + "\n".join(rows) + f"\n{z}"
text = re.sub(re.escape(a) + ".*?" + re.escape(z), lambda _: new, text, flags=re.S)
open(f"{ROOT}/DESIGN.md", "w").write(text)
