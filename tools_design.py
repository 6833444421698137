#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import re, json, glob, os
V = os.path.dirname(os.path.abspath(__file__)); rows = []
one = lambda s: " ".join(str(s).split()).replace("|", "/")
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); rows.append((m["property"], os.path.basename(os.path.dirname(f)), one(m["what_it_breaks"]), one(m["needs"])))
rows.sort()
t = f"""## Planted changes

{len(rows)} changes are kept in `seeded/`; each compiles, passes the repository's tests, fails its demonstration and is reported by the check
of its property (tried one by one with `tools_seed.py try`).

| property, which catches it | change | what it breaks | needs |
|---|---|---|---|
""" + "".join(f"| {a} | {b} | {c} | {d} |\n" for a, b, c, d in rows)
p = V + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"(<!-- seeds:.*?-->\n).*(<!-- end -->)", lambda m: m.group(1) + t + m.group(2), s, flags=re.S); open(p, "w").write(s)
