"""Refresh the table of planted bugs in DESIGN.md (between the markers)."""
import collections
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for b in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", b, "meta.json")))
    by[m["property"]].append(b)
n = sum(map(len, by.values()))
rows = ["| check | planted bugs it catches |", "|---|---|"] + [f"| {p} | {', '.join(by[p])} |" for p in sorted(by)]
path = os.path.join(here, "DESIGN.md")
text = open(path).read()
text = re.sub(r"(?s)(<!-- table -->\n).*?(<!-- end -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], text)
text = re.sub(r"<!-- n -->\d*", f"<!-- n -->{n}", text)
open(path, "w").write(text)
