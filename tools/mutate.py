#!/usr/bin/env python3
"""tools/mutate.py [-j N] [-t] [NAME-substring...] : apply each mutant of tools/mutants.py to a scratch copy and run the checks named.
-t also runs the repository's tests on the mutant (is it realistic?)."""
import os, sys, subprocess, shutil, threading, queue, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, 'tools'))
from mutants import M
args = sys.argv[1:]
J, tests = 3, False
if '-j' in args:
    i = args.index('-j'); J = int(args[i + 1]); del args[i:i + 2]
if '-t' in args:
    args.remove('-t'); tests = True
todo = [m for m in M if not args or any(a in m[0] for a in args)]
q = queue.Queue()
for m in todo:
    q.put(m)
lk = threading.Lock()


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def work(n):
    W = '/tmp/mutq%s%d' % (os.environ.get('MQ', ''), n)
    os.makedirs(W, exist_ok=True)
    R = W + '/repo'
    if not os.path.exists(R):
        sh('cp -a /repo %s' % R)
    sh('git -C %s checkout -q -f -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (R, R, R))
    env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=W + '/build', VERIF_EVIDENCE=W + '/evidence')
    os.makedirs(W + '/build', exist_ok=True)
    if not os.path.exists(W + '/build/driver') and os.path.exists(V + '/.build/driver'):
        sh('cp -a %s/.build/driver %s/build/driver' % (V, W))
    while True:
        try:
            name, f, old, new, ids = q.get_nowait()
        except queue.Empty:
            return
        p = os.path.join(R, f)
        src = open(p).read()
        if src.count(old) < 1:
            with lk:
                print('%-34s STALE (%d occurrences)' % (name, src.count(old)), flush=True)
            continue
        open(p, 'w').write(src.replace(old, new, 1))
        out = []
        for i in ids.split():
            if i.startswith('rule:'):
                r = sh('cd %s && FX=1 timeout 900 python3 tools/rule.py %s' % (V, i[5:]), env=env)
                ls = r.stdout.splitlines()
                out.append('%s:%s %s' % (i, 'rc%d %s' % (r.returncode, r.stderr[-300:]) if r.returncode else 'caught' if len(ls) > 1 else 'MISSED', (ls[0] if len(ls) > 1 else ls[-1][:250])[:190]))
                continue
            if i.startswith('comp:'):
                r = sh('cd %s && TL=200 FX=1 PAR=2 timeout 900 python3 tools/smoke.py %s' % (V, i[5:].replace(',', ' ')), env=env)
                ls = r.stdout.splitlines()
                v = sorted({x.strip()[2:] for x in ls if x.startswith('   V')})
                bad = [x.strip() for x in ls if '(S)' in x or 'unmodelled' in x or 'EXC' in x]
                out.append('%s %s' % ('rc%d %s' % (r.returncode, r.stderr[-300:]) if r.returncode else 'caught' if v else 'MISSED', (' | '.join(x[:110] for x in v[:4]) if v else '') + (' ##' + ' '.join(bad)[:200] if bad else '')))
                continue
            r = sh('cd %s && timeout 900 python3 check.py %s quick' % (V, i), env=env)
            v = [x for x in r.stdout.splitlines() if x.startswith('  ')]
            nt = [x for x in r.stdout.splitlines() if x.startswith('note')]
            out.append('%s:%s %s' % (i, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'rc%d %s' % (r.returncode, r.stderr.strip()[-300:])), (v[0].strip()[:130] if v else '') + (' ' + nt[0][:150] if nt else '')))
        t = ''
        if tests:
            r = sh('cd %s && cargo test -q --offline --all-features -p tower 2>&1 | grep -E "^test .*FAILED|test result: FAILED|error(\\[|:)" | head -3' % R)
            t = ' TESTS ' + (r.stdout.strip().replace('\n', ' | ')[:200] or 'pass')
        with lk:
            print('%-34s %s%s' % (name, ' ; '.join(out), t), flush=True)
        open(p, 'w').write(src)


ts = [threading.Thread(target=work, args=(n,)) for n in range(J)]
[t.start() for t in ts]
[t.join() for t in ts]
