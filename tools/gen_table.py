#!/usr/bin/env python3
"""Puts the table of planted bugs into DESIGN.md."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
also = {"min-literal": "C17", "header-flush": "C03", "one-watch-list": "C03, C14"}
L = []
for b in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", b, "meta.json")))
    L.append((m["property"], b, m["needs"]))
for p, b, n in sorted(L):
    rows.append(f"| {b} | {p}{' (also ' + also[b] + ')' if b in also else ''} | {n} |")
f = os.path.join(H, "DESIGN.md")
s = open(f).read()
s = re.sub(r"(<!-- table: tools/gen_table.py -->\n).*?(<!-- end -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
open(f, "w").write(s)
