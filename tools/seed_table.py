#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only, no check uses it)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for d in sorted(os.listdir(here + "/seeded")):
    by.setdefault(json.load(open("%s/seeded/%s/meta.json" % (here, d)))["property"], []).append("`%s`" % d)
table = "| check | catches |\n|---|---|\n" + "".join("| %s | %s |\n" % (p, ", ".join(by[p])) for p in sorted(by))
p = here + "/DESIGN.md"
t = open(p).read()
t = re.sub(r"\| check \| catches \|\n\|---\|---\|\n(\|.*\n)+", lambda m: table, t)
open(p, "w").write(t)
