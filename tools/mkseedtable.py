#!/usr/bin/env python3
"""Prints the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import json, os
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
M = os.path.join(os.path.dirname(os.path.abspath(__file__)), "first_missed.txt")
MISSED = set(open(M).read().split()) if os.path.exists(M) else set()
print("| planted bug | caught by | what it breaks | needs | first missed |")
print("|---|---|---|---|---|")
for i in sorted(os.listdir(D)):
    p = os.path.join(D, i, "meta.json")
    if not os.path.exists(p):
        continue
    m = json.load(open(p))
    c = lambda s: s.replace("|", "\\|").replace("\n", " ")
    print("| %s | %s | %s | %s | %s |" % (i, m["property"], c(m["what_it_breaks"]), c(m["needs"]), "yes" if i in MISSED else ""))
