#!/usr/bin/env python3
"""run one rule on the current tree: rule.py NAME [tier]"""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.extract import extract
from sa import rules
t = time.time()
f, c, note = rules.RULES[sys.argv[1]](extract(force=bool(os.environ.get('FX'))), 'quick')
for x in f:
    print(x["kind"], x["site"], x["what"][:300])
    for e in x["trace"][-12:] if os.environ.get('TR') else ():
        print('     ', e[:300])
c["functions"] = len(c["functions"])
print(c, note, "%.1fs" % (time.time() - t))
