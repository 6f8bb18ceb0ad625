#!/usr/bin/env python3
"""components and rules given by name, on VERIF_REPO; stops at the first finding"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.extract import extract
from sa import comps, run as RUN, rules
mir = extract()
A = sys.argv[1:]
for n in [a[5:] for a in A if a.startswith('rule:')]:
    fs, c, note = rules.RULES[n](mir, 'quick')
    if note:
        print("NOT ANALYSED", n, note[:200])
    for x in fs:
        print("ALARM", n, x["kind"], x["site"], str(x["what"])[:200], flush=True)
        os._exit(0)
names = [a for a in A if not a.startswith('rule:')]
for r in RUN.run(mir, names, 'quick'):
    if r["note"]:
        print("NOT ANALYSED", r["name"], r["note"][:200])
        continue
    if r["tainted"]:
        print("TAINTED", r["name"], r["unmodelled"])
    for v in r["violations"]:
        print("ALARM", r["name"], v["prop"], v["kind"], v["site"], v["what"][:200], flush=True)
