#!/usr/bin/env python3
"""all.py: every component (all kinds of findings) and every rule on VERIF_REPO; prints findings, taints and what was not analysed"""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from sa.extract import extract
from sa import comps, run as RUN, rules
mir = extract()
t = time.time()
only = sys.argv[1:]
names = [n for n in comps.REG if not only or any(o in n for o in only)]
tot = 0
for r in RUN.run(mir, names, 'quick'):
    tot += r["states"]
    if r["note"]:
        print("NOT ANALYSED", r["name"], r["note"][:300])
        continue
    if r["truncated"]:
        print("TRUNCATED", r["name"], r["states"])
    if r["unmodelled"]:
        print("UNMODELLED", r["name"], str(r["unmodelled"])[:300])
    if r["tainted"]:
        print("TAINTED", r["name"], r["tainted"], r["states"])
    for v in r["violations"]:
        print("ALARM", r["name"], v["prop"], v["kind"], v["site"], v["what"][:250])
    for v in r["suppressed"][:3]:
        print("SUPPRESSED", r["name"], v["prop"], v["kind"], v["site"], v["because"][:150])
print("components", len(names), "states", tot, "%.0fs" % (time.time() - t), flush=True)
for n, f in rules.RULES.items():
    if only and not any(o in n for o in only):
        continue
    fs, c, note = f(mir, 'quick')
    if note:
        print("NOT ANALYSED", n, note[:300])
    for x in fs:
        print("ALARM", n, x["kind"], x["site"], str(x["what"])[:300])
    lo = c.get("left_out") if isinstance(c, dict) else None
    if lo:
        print("LEFT OUT", n, str(lo)[:400])
print("done %.0fs" % (time.time() - t))
