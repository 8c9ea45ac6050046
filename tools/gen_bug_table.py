#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
rows = []
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {f.split('/')[1]} | {m['property']} | {m['needs']} |")
s = open("DESIGN.md").read()
s = re.sub(r"(\| planted bug \| caught by \| needs \|\n\|---\|---\|---\|\n)(\|.*\n)+", lambda k: k.group(1) + "\n".join(rows) + "\n", s)
s = re.sub(r"^\d+ changes are kept", f"{len(rows)} changes are kept", s, flags=re.M)
open("DESIGN.md", "w").write(s)
print(len(rows))
