#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, collections
MISSED = set("b44 b46 b50 b57 b64 b65 b68 b72 b73 b76".split())
MISSED |= set(open(os.path.join(os.path.dirname(__file__), "missed.txt")).read().split())
t = collections.defaultdict(list)
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    n = f.split("/")[-2]
    t[json.load(open(f))["property"]].append(n + ("*" if n.split("-")[0] in MISSED else ""))
s = open("/verif/DESIGN.md").read()
i = s.index("| check | catches |"); j = (s + "\n\n").index("\n\n", i)
rows = "".join(f"| {k} | {', '.join(v)} |\n" for k, v in sorted(t.items()))
open("/verif/DESIGN.md", "w").write(s[:i] + "| check | catches |\n|---|---|\n" + rows.rstrip("\n") + (s[j:] or "\n"))
