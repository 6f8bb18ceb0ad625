#!/usr/bin/env python3
"""marathon.py NAME...: long histories of single components (debugging)"""
import os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.extract import extract
from sa.engine import Facts, Engine
from sa.mgc import Marathon
from sa import comps
F = Facts(extract(force=bool(os.environ.get('FX'))))
for n in sys.argv[1:] or sorted(comps.REG):
    for p in Marathon.PROFILES:
        t = time.time()
        en = Engine(F)
        c = comps.REG[n]()
        c.tier = 'quick'
        try:
            D = Marathon(en, c, p)
            D.run(float(os.environ.get('TL', '30')))
            print("%-22s %-9s rounds %d states %d ops %s res %s %.1fs viol %d supp %d%s" % (n, p, D.rounds, D.nstates, dict(D.opkinds), dict(D.results), time.time() - t, len(en.violations), len(en.suppressed), ' TRUNC' if D.truncated else ''))
            for v in en.violations.values():
                print('    ', v.prop, v.kind, v.what[:200], v.site)
                for e in v.trace[-14:] if os.environ.get('TR') else ():
                    print('         ', str(e)[:200])
        except Exception as ex:
            print(n, p, type(ex).__name__, str(ex)[:200])
            if os.environ.get('TB'): traceback.print_exc()
