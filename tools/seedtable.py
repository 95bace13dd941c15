#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json and tools/caught.txt
(lines 'ID PROP rc=N ...' as printed by tools/seed.sh check)."""
import json, os, re, glob
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
caught = {}
for l in open(os.path.join(here, "tools/caught.txt")):
    m = re.match(r"(\S+) (C\d\d) rc=(\d)\s+(?:failure: )?([^|]*)", l)
    if m: caught.setdefault(m.group(1), {})[m.group(2)] = (m.group(3), m.group(4).strip())
rows = []
for d in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    i = os.path.basename(os.path.dirname(d)); x = json.load(open(d)); c = caught.get(i, {})
    hit = [p for p in sorted(c) if c[p][0] == "1"]; miss = [p for p in sorted(c) if c[p][0] != "1"]
    msg = re.sub(r"/\S+/", "", c[hit[0]][1])[:90].replace("`", "'") if hit else ""
    rows.append(f"| {i} | {x['needs']} | {', '.join(hit) or '-'}{(' (not ' + ', '.join(miss) + ')') if miss else ''} | {msg} |")
p = os.path.join(here, "DESIGN.md"); s = open(p).read()
h = "## Planted changes and which checks catch them\n"
s = s[:s.index(h)] + h + "\nQuick tier, seed 1; written by `tools/seedtable.py` from the output of `tools/seed.sh check`.\n\n| change | needs | caught by | first report |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
