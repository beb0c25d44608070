#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only; no check uses it)."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(HERE, "seeded"); rows = []
for i in sorted(os.listdir(d)):
    m = json.load(open(f"{d}/{i}/meta.json")); rows.append(f"| {i} | {m['property']} | {m['needs'].rstrip('.')} |")
t = open(f"{HERE}/DESIGN.md").read()
head = "<!-- planted -->\n"; tail = "<!-- /planted -->"
table = head + "| change | caught by (quick) | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n" + tail
t = re.sub(re.escape(head) + ".*?" + re.escape(tail), lambda _: table, t, flags=re.S)
open(f"{HERE}/DESIGN.md", "w").write(t); print(len(rows), "planted bugs")
