import sys,time
sys.path.insert(0,'/verif')
from sa.extract import extract
from sa.engine import *
from sa import comps
from sa.mgc import Driver
d=extract(force=bool(__import__("os").environ.get("FX")))
names=sys.argv[1:] or list(comps.REG)
F=Facts(d)
for n in names:
    en=Engine(F); en.debug=len(names)==1
    c=comps.REG[n](); c.max_states=int(__import__("os").environ.get("MS",c.max_states))
    t=time.time()
    try:
        D=Driver(en,c); D.par=int(__import__('os').environ.get('PAR','8')); D.run(int(__import__("os").environ.get("TL","60")))
    except Exception as e:
        import traceback; traceback.print_exc(); print(n,'EXC',e); continue
    print('%-20s states %5d ops %6d wake %d tainted %d trunc %s %.1fs  res %s'%(n,D.nstates,D.nops,D.nwake,D.tainted,D.truncated,time.time()-t,D.results))
    for v in en.violations.values():
        print('   V',v.key())
        if len(names)==1:
            for e in v.trace[-25:]: print('       ',str(e)[:250])
    for v in list(en.suppressed.values())[:5]: print('   (S)',v.key(), v.taint)
    if en.stats['unmodelled']: print('   unmodelled',en.stats['unmodelled'])
