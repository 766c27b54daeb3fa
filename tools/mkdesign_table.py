#!/usr/bin/env python3
"""The planted-bug table of DESIGN.md, from seeded/*/meta.json and a log of tools/runseed.py:
mkdesign_table.py LOG...   (the last line about a bug counts)"""
import json, os, re, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
got = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(C\d\d-\S+) (C\d\d) rc=(\d+)", l)
        if m:
            got.setdefault(m[1], {})[m[2]] = m[3] == "1"
for i in sorted(os.listdir(root)):
    meta = json.load(open(os.path.join(root, i, "meta.json")))
    r = got.get(i, {})
    caught = " ".join(sorted(p for p in r if r[p])) or "-"
    missed = " ".join(sorted(p for p in r if not r[p]))
    print("| %s | %s | %s |" % (i, meta["needs"].replace("|", "/")[:150], caught + (" (not: %s)" % missed if missed else "")))
