#!/usr/bin/env python3
"""tools/automut.py -j N [-s SEED] [-n MAX] [-o OUT] [file-substring...]: mutants made by mechanical edits of /repo's source; each that compiles is
analysed with the components and rules that touch its file; what is missed is run through the repository's tests, and survivors of both are printed."""
import os, re, sys, subprocess, threading, queue, json, random, difflib, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = sys.argv[1:]


def opt(k, d):
    if k in A:
        i = A.index(k)
        v = A[i + 1]
        del A[i:i + 2]
        return v
    return d


J, SEED, MAX, OUT = int(opt('-j', 3)), int(opt('-s', 1)), int(opt('-n', 10 ** 6)), opt('-o', '/tmp/automut.txt')
FN = json.load(open('/tmp/fnmap.json'))
ROOT = '/repo'
files = subprocess.run('git -C %s ls-files "*.rs"' % ROOT, shell=True, capture_output=True, text=True).stdout.split()
files = [f for f in files if '/src/' in f and 'tests' not in f and (f.startswith('tower/') or f.startswith('tower-layer') or f.startswith('tower-service') or f.startswith('tower-test'))]
if A:
    files = [f for f in files if any(a in f for a in A)]


def mod(f):
    p = f.split('/src/')[1][:-3].replace('/', '::')
    return re.sub(r'(^|::)(mod|lib)$', '', p)


def comps_for(f):
    m = mod(f)
    out = []
    for c, fs in FN.items():
        if c in ('rule:features', 'rule:autotraits', 'rule:nounsafe'):
            continue
        pre = f.split('/')[0].replace('-', '_') + '::' + (m + '::' if m else '')
        if any(x.startswith(pre) and (x[len(pre):].startswith('{') or x[len(pre):].count('::') <= 1) for x in fs):
            out.append(c)
    if f.startswith('tower-layer') or 'builder' in f or f.endswith('layer.rs'):
        out.append('rule:layers')
    return sorted(set(out))


def mutants(f):
    src = open(os.path.join(ROOT, f)).read()
    cut = src.find('#[cfg(test)]\nmod ')
    lines = src.split('\n')
    end = src[:cut].count('\n') if cut >= 0 else len(lines)
    infn = 0
    depth = 0
    res = []

    def put(i, new, why):
        res.append((f, i, lines[i], new, why))
    fnstart = None
    prev = None
    skip_debug = False
    for i in range(end):
        l = lines[i]
        t = l.strip()
        if t.startswith('//') or not t:
            continue
        code = re.sub(r'"(\\.|[^"\\])*"', '""', t)
        if re.match(r'impl.*fmt::Debug', t) or re.match(r'impl.*fmt::Display', t):
            skip_debug = depth + 1
        if re.search(r'\bfn \w+', code) and fnstart is None:
            fnstart = depth
        depth += code.count('{') - code.count('}')
        if skip_debug and depth < skip_debug:
            skip_debug = False
        if fnstart is not None and depth <= fnstart and ('}' in code or code.endswith(';')):
            fnstart = None
        if fnstart is None or skip_debug or 'trace!' in t or 'debug!' in t or 'debug_assert' in t:
            prev = None
            continue
        ind = l[:len(l) - len(l.lstrip())]
        if re.search(r'\bfn \w+', code) or code.startswith(('where', '#[')):
            continue
        if t.endswith(';') and not t.startswith(('let ', 'use ', 'return', '}', ')', '.', 'const ', 'type ')) and '=' != t[:1]:
            if code.count('(') == code.count(')') and code.count('{') == code.count('}'):
                put(i, ind + '// gone', 'delete')
        if t in ('return Poll::Pending;', 'return Poll::Ready(None);', 'continue;', 'break;') or t.startswith('return Poll::'):
            put(i, ind + '// gone', 'delete-return')
        m = re.match(r'(\}? ?(?:else )?if )(?!let)(.*)( \{)$', t)
        if m:
            put(i, ind + m[1] + '!(' + m[2] + ')' + m[3], 'negate')
            put(i, ind + m[1] + 'true || ' + m[2] + m[3], 'always')
            put(i, ind + m[1] + 'false && ' + m[2] + m[3], 'never')
        for a, b in ((' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' || ', ' && '),
                     (' + ', ' - '), (' - ', ' + '), (' += ', ' -= '), (' -= ', ' += '), (' / ', ' * '), (' * ', ' / '), ('true', 'false'), ('false', 'true'),
                     ('is_some()', 'is_none()'), ('is_none()', 'is_some()'), ('is_ready()', 'is_pending()'), ('is_ok()', 'is_err()'), ('is_err()', 'is_ok()'),
                     ('.take()', '.as_ref().cloned()'), ('saturating_add', 'saturating_sub'), ('.min(', '.max('), ('.max(', '.min('),
                     ('Poll::Pending', 'Poll::Ready(Ok(()))'), ('Poll::Ready(None)', 'Poll::Pending'), ('Poll::Ready(Ok(()))', 'Poll::Pending'),
                     ('?;', ';'), ('Some(', 'None::<()>.map(|_| '), ('Either::Left', 'Either::Right'), ('&& !', '&& '), ('!self', 'self'), ('!msg', 'msg'),
                     ('fetch_add', 'fetch_sub'), ('.store(', '.fetch_xor('), ('Ok(', 'Err('), ('Err(', 'Ok('), ('poll_ready(cx)?', 'poll_ready(cx).map(|_| ())')):
            if a in code and a in t:
                if a in ('Ok(', 'Err(', 'Some(') and '=>' in t and t.index(a) < t.index('=>'):
                    continue
                k = t.index(a)
                put(i, ind + t[:k] + b + t[k + len(a):], a.strip() + '->' + b.strip())
                k2 = t.rfind(a)
                if k2 != k:
                    put(i, ind + t[:k2] + b + t[k2 + len(a):], a.strip() + '->' + b.strip() + '@2')
        for m in re.finditer(r'\b(\d+)\b', code):
            if code == t:
                put(i, ind + t[:m.start()] + str(int(m[1]) + 1) + t[m.end():], 'lit+1')
                if int(m[1]):
                    put(i, ind + t[:m.start()] + str(int(m[1]) - 1) + t[m.end():], 'lit-1')
        simple = t.endswith(';') and code.count('(') == code.count(')') and code.count('{') == code.count('}') and not t.startswith(('}', '.', ')'))
        if prev is not None and simple and prev == i - 1 and lines[prev][:len(ind)] == ind and not lines[prev][len(ind):len(ind) + 1].isspace():
            res.append((f, i, lines[i], None, 'swap-up'))
        prev = i if simple else None
        # a match arm guard
        m = re.match(r'(.*) if (.*) => (.*)$', t)
        if m:
            put(i, ind + m[1] + ' => ' + m[3], 'unguard')
    return res


todo = []
for f in files:
    if comps_for(f):
        todo += mutants(f)
random.Random(SEED).shuffle(todo)
todo = todo[:MAX]
q = queue.Queue()
for m in todo:
    q.put(m)
print('mutants', len(todo), flush=True)
lk = threading.Lock()
cnt = {}
DONE = set()
if os.path.exists(OUT):
    DONE = {l.split(' :: ')[0].split(' ', 1)[1] for l in open(OUT) if ' :: ' in l}


def sh(c, **k):
    k.setdefault('timeout', 900)
    try:
        return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
    except subprocess.TimeoutExpired:
        class R: returncode, stdout, stderr = 124, '', 'timeout'
        return R


def out(kind, m, extra=''):
    with lk:
        cnt[kind] = cnt.get(kind, 0) + 1
        with open(OUT, 'a') as o:
            o.write('%s %s:%d %s :: %s ==> %s   %s\n' % (kind, m[0], m[1] + 1, m[4], m[2].strip(), (m[3] or '').strip(), extra))
            o.flush()


def work(n):
    W = '/tmp/automut%d' % n
    os.makedirs(W + '/build', exist_ok=True)
    R = W + '/repo'
    if not os.path.exists(R):
        sh('cp -a /repo %s; rm -rf %s/target' % (R, R))
    sh('git -C %s checkout -q -f -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (R, R, R))
    if not os.path.exists(W + '/build/driver'):
        sh('cp -a %s/.build/driver %s/build/driver' % (V, W))
    env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=W + '/build', VERIF_PROCS='3')
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        key = '%s:%d %s' % (m[0], m[1] + 1, m[4])
        if key in DONE:
            continue
        f, i, old, new, why = m
        p = os.path.join(R, f)
        ls = open(os.path.join(ROOT, f)).read().split('\n')
        if new is None:
            ls[i - 1], ls[i] = ls[i], ls[i - 1]
        else:
            ls[i] = new
        open(p, 'w').write('\n'.join(ls))
        try:
            b = sh('cd %s && CARGO_TARGET_DIR=%s/target cargo check --offline -q -p tower --all-features' % (R, W))
            if b.returncode:
                out('nocompile', m)
                continue
            cs = comps_for(f)
            r = sh('cd %s && python3 tools/automut_one.py %s' % (V, ' '.join(cs)), env=env)
            if 'ALARM' in r.stdout:
                out('caught', m, [l for l in r.stdout.split('\n') if 'ALARM' in l][0][:160])
                continue
            t = sh('cd %s && CARGO_TARGET_DIR=%s/target timeout 200 cargo test --offline -q --all-features --tests --lib' % (R, W))
            note = ' '.join(l[:120] for l in r.stdout.split('\n') if l and not l.startswith(('components', 'done')))[:400] + (r.stderr[-200:] if r.returncode else '')
            out('killed' if t.returncode else 'SURVIVOR', m, note)
        finally:
            open(p, 'w').write(open(os.path.join(ROOT, f)).read())


ts = [threading.Thread(target=work, args=(n,)) for n in range(J)]
for t in ts:
    t.start()
for t in ts:
    t.join()
print(cnt)
