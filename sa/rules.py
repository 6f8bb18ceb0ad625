"""Whole-program rules over the extracted facts: name -> fn(mirdir, tier) -> (findings, coverage, note)

Each rule interprets a few public functions over symbolic arguments (every path,
branch conditions kept as facts) and discharges its obligations with a small
relational prover.  A construct outside the vocabulary the prover knows gives a
note for that obligation, never a finding."""
import os

from . import engine as EG
from .engine import CheckError

RULES = {}


def rule(f):
    RULES[f.__name__] = f
    return f


class Unknown(Exception):
    """the code uses something the rule's vocabulary does not cover"""


class R:
    """one run of a rule: engine, findings and counters"""

    def __init__(self, mirdir, name, depth=40):
        self.name = name
        self.F = EG.Facts(mirdir)
        self.en = EG.Engine(self.F)
        self.en.ctx = name
        self.findings = []
        self.notes = []
        self.n = 0
        self.paths = 0
        self.panics = []
        self.en.listeners = list(self.en.listeners) + [self.listen]
        self.saved = dict(EG.LIMITS)
        EG.LIMITS.update(depth=depth, float=True, vec=16)

    def bad(self, kind, site, what, st=None):
        if not any(f["kind"] == kind and f["site"] == site for f in self.findings):
            self.findings.append({"component": self.name, "kind": kind, "site": site, "what": what,
                                  "trace": [] if st is None else ["%s = %s" % x for x in list(st.facts.items())[-40:]]})

    def need(self, cond, kind, site, what, st=None):
        self.n += 1
        if not cond:
            self.bad(kind, site, what, st)
        return cond

    def listen(self, en, st, kind, a):
        if kind == 'panic':
            self.panics.append((dict(st.facts), a, st.taint))

    def attempt(self, f):
        """run one group of obligations; leave it out (with a note) when it is beyond the vocabulary"""
        try:
            f()
        except (Unknown, CheckError, EG.Limit, RecursionError) as e:
            self.notes.append("%s: %s" % (getattr(f, '__name__', '?'), str(e) or type(e).__name__))
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, ArithmeticError) as e:
            if os.environ.get('TR'):
                raise
            self.notes.append("%s: %s: %s" % (getattr(f, '__name__', '?'), type(e).__name__, e))

    def done(self):
        EG.LIMITS.clear()
        EG.LIMITS.update(self.saved)
        # a panic, broken protocol etc. the interpreter itself found on a path
        for v in self.en.violations.values():
            self.bad(v.kind, v.site, v.what)
        cov = {"instances": self.n, "paths": self.paths, "functions": sorted(self.en.stats["functions"]),
               "left_out": self.notes, "findings": len(self.findings)}
        return self.findings, cov, ("; ".join(self.notes) if self.notes and not self.n else None)


def walk(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from walk(x)


def factors(t):
    """the factors of a product"""
    if isinstance(t, tuple) and t and t[0] == 'mul':
        return factors(t[1]) + factors(t[2])
    if isinstance(t, tuple) and len(t) == 4 and t[:2] == ('ext', 'mul_f64'):
        return factors(t[2]) + factors(t[3])
    return [t]


def addends(t):
    if isinstance(t, tuple) and t and t[0] == 'add':
        return addends(t[1]) + addends(t[2])
    return [t]


def linear(t, sign=1, acc=None):
    """a sum as a multiset of signed terms (zeros left out)"""
    from collections import Counter
    acc = Counter() if acc is None else acc
    if t[0] == 'add':
        linear(t[1], sign, acc)
        linear(t[2], sign, acc)
    elif t[0] == 'sub':
        linear(t[1], sign, acc)
        linear(t[2], -sign, acc)
    elif t[0] == 'neg':
        linear(t[1], -sign, acc)
    elif t[0] == 'i':
        acc[('i', 1)] += sign * t[1]
    else:
        acc[t] += sign
    for k in [k for k, v in acc.items() if not v]:
        del acc[k]
    return acc


class Rel:
    """what the branch conditions of one path say about the order of terms of an
    ordered type whose least value is zero (durations, unsigned integers)"""

    def __init__(self, facts):
        self.f = facts
        self.ledges = []
        for k, v in facts.items():
            if k[0] == 'lt':
                if v == 1:
                    self.ledges.append((k[1], k[2]))
                else:
                    self.ledges.append((k[2], k[1]))
            elif k[0] == 'eq' and v == 1:
                self.ledges.append((k[1], k[2]))
                self.ledges.append((k[2], k[1]))

    @staticmethod
    def zero(t):
        return t in (('dur0',), ('i', 0), ('ext', 'from_millis', ('i', 0)), ('ext', 'from_secs', ('i', 0)), ('ext', 'from_nanos', ('i', 0)), ('ext', 'from_micros', ('i', 0)))

    def contradictory(self):
        """a branch condition which the others refute: no execution takes this path"""
        for k, v in self.f.items():
            if k[0] == 'lt' and v == 1:
                o = Rel({q: w for q, w in self.f.items() if q != k})
                if o.le(k[2], k[1]):
                    return True
        return False

    def le(self, a, b, depth=6):
        """provably a <= b"""
        if a == b or self.zero(a):
            return True
        if depth == 0:
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == 'i' and b[0] == 'i':
                return a[1] <= b[1]
            if a[0] == 'sub' and self.le(a[1], b, depth - 1):
                return True
            if b[0] == 'add' and (self.le(a, b[1], depth - 1) or self.le(a, b[2], depth - 1)):
                return True
            if a[0] == 'add':
                x, y = a[1], a[2]
                if self.zero(x):
                    return self.le(y, b, depth - 1)
                if self.zero(y):
                    return self.le(x, b, depth - 1)
                for p, q in ((x, y), (y, x)):
                    if q == ('sub', b, p):
                        return True
                    # q <= b - p
                    for u, w in self.ledges:
                        if w == ('sub', b, p) and self.le(q, u, depth - 1):
                            return True
        for u, w in self.ledges:
            if u == a and w != a and self.le(w, b, depth - 1):
                return True
        return False


def method_of(r, trait, method, key):
    for i in r.F.impls:
        if i["trait"] and i["trait"].rsplit('::', 1)[-1] == trait and i["selft"][0] == 'adt' and i["selft"][1] == key and method in i["methods"]:
            return i["methods"][method]
    raise CheckError('%s does not implement %s' % (key, trait))


def site(r, key):
    f = r.F.fns[key]
    return "%s (%s)" % (f["path"], f["at"])


def call(r, st, key, args):
    outs = r.en.run_body(st, r.en.C.body(key), args)
    r.paths += len(outs)
    return outs


def inherent(r, key, method, argc):
    ks = r.F.inherent.get((key, method))
    if not ks:
        raise CheckError('public method %s::%s not found' % (key, method))
    for k in ks:
        if r.en.C.body(k).argc == argc:
            return k
    raise CheckError('%s::%s does not take %d arguments' % (key, method, argc))


def cellval(t, val):
    """value of a numeric term in one cell of the argument space"""
    if t in val:
        return val[t]
    if t[0] in ('i', 'f'):
        return t[1]
    if Rel.zero(t):
        return 0
    if t[:2] in (('ext', 'from_millis'), ('ext', 'from_secs'), ('ext', 'from_nanos'), ('ext', 'from_micros'), ('ext', 'new')) and t[2][0] == 'i':
        return t[2][1] * {'from_millis': 1000000, 'from_secs': 10**9, 'from_nanos': 1, 'from_micros': 1000, 'new': 10**9}[t[1]]
    if t[0] == 'cvt' and t[1] in ('FloatToFloat', 'IntToFloat'):
        return float(cellval(t[2], val))
    if t[0] == 'neg':
        return -cellval(t[1], val)
    raise Unknown("term %s" % (t,))


def constants(facts, acc):
    for k in facts:
        for t in walk(k):
            if isinstance(t, tuple) and t and t[0] in ('i', 'f') and len(t) == 2 and isinstance(t[1], (int, float)):
                acc.add(t[1])


def cellholds(k, want, val):
    """does branch condition k (value want) hold in the cell"""
    import math
    if k[0] == 'lt':
        return (cellval(k[1], val) < cellval(k[2], val)) == bool(want)
    if k[0] == 'not':
        return cellholds(k[1], not want, val)
    if k[0] == 'le':
        return (cellval(k[1], val) <= cellval(k[2], val)) == bool(want)
    if k[0] == 'eq':
        return (cellval(k[1], val) == cellval(k[2], val)) == bool(want)
    if k[0] == 'ext' and len(k) == 3:
        f = {'is_finite': math.isfinite, 'is_nan': math.isnan, 'is_infinite': math.isinf, 'is_zero': lambda x: x == 0,
             'is_sign_negative': lambda x: math.copysign(1, x) < 0, 'is_sign_positive': lambda x: math.copysign(1, x) > 0}.get(k[1])
        if f:
            return bool(f(cellval(k[2], val))) == bool(want)
    if k[0] == 'ext' and k[1] == 'contains' and len(k) == 4:
        raise Unknown("contains")
    raise Unknown("condition %s" % (k,))


def numval(t, val):
    """value of a term over durations (in ns), floats and integers at one point of the argument space"""
    import math
    if t in val:
        return val[t]
    if t[0] == 's' and len(t) == 2:
        return numval(t[1], val)
    h = t[0]
    if h in ('add', 'sub', 'mul', 'div', 'rem'):
        a, b = numval(t[1], val), numval(t[2], val)
        if h in ('div', 'rem') and b == 0:
            raise Unknown('division by zero')
        if h == 'div' and isinstance(a, int) and isinstance(b, int):
            return a // b
        return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'div': lambda: a / b, 'rem': lambda: a % b}[h]()
    if h == 'cvt':
        x = numval(t[2], val)
        if t[1].startswith('Trunc'):
            return x % (1 << int(t[1][5:]))
        if t[1] == 'FloatToInt':
            return max(0, math.trunc(x))
        return float(x) if t[1] in ('FloatToFloat', 'IntToFloat') else x
    if h == 'pj' and t[2:] == (1, 0):
        return numval(t[1], val)
    if h == 'ext':
        a = [numval(x, val) for x in t[2:]]
        f = {'as_secs': lambda d: d // 10**9, 'subsec_nanos': lambda d: d % 10**9, 'subsec_micros': lambda d: d % 10**9 // 1000, 'subsec_millis': lambda d: d % 10**9 // 10**6,
             'as_nanos': lambda d: d, 'as_millis': lambda d: d // 10**6, 'as_micros': lambda d: d // 1000, 'as_secs_f64': lambda d: d / 1e9, 'as_secs_f32': lambda d: d / 1e9,
             'from_secs_f64': lambda x: int(x * 1e9), 'from_secs_f32': lambda x: int(x * 1e9), 'from_nanos': lambda x: x, 'from_millis': lambda x: x * 10**6, 'from_micros': lambda x: x * 1000, 'from_secs': lambda x: x * 10**9,
             'new': lambda x, y: x * 10**9 + y, 'mul_f64': lambda d, x: int(d * x), 'mul_f32': lambda d, x: int(d * x), 'div_f64': lambda d, x: int(d / x) if x else 1 / 0,
             'saturating_pow': lambda x, y: min(x**y, 2**32 - 1), 'checked_pow': lambda x, y: x**y, 'pow': lambda x, y: x**y, 'saturating_mul': lambda x, y: x * y, 'checked_mul': lambda x, y: x * y,
             'saturating_add': lambda x, y: x + y, 'checked_add': lambda x, y: x + y, 'saturating_sub': lambda x, y: max(0, x - y), 'min': min, 'max': max}.get(t[1])
        if f:
            try:
                return f(*a)
            except (TypeError, ZeroDivisionError, OverflowError):
                raise Unknown("term %s" % (t[:2],))
    return cellval(t, val)


def numholds(k, want, val):
    if k[0] in ('lt', 'le', 'eq'):
        a, b = numval(k[1], val), numval(k[2], val)
        return {'lt': a < b, 'le': a <= b, 'eq': a == b}[k[0]] == bool(want)
    if k[0] == 'not':
        return numholds(k[1], not want, val)
    if k[0] == 'var' and k[1][0] == 'ext' and k[1][1] in ('checked_mul', 'checked_pow', 'checked_add'):
        numval(k[1], val)
        return bool(want)
    if k[0] == 'ext' and k[1] == 'is_zero':
        return (numval(k[2], val) == 0) == bool(want)
    return cellholds(k, want, val)


@rule
def backoff(mirdir, tier):
    import itertools
    import math
    from . import comps as C
    r = R(mirdir, 'backoff')
    en = r.en
    MIN, MAX, JIT, RNG = ('dur', 'min'), ('dur', 'max'), ('f', 'jit'), ('rng',)
    mkk, bok = C.adt(en, 'ExponentialBackoffMaker'), C.adt(en, 'ExponentialBackoff')
    newk = inherent(r, mkk, 'new', 4)
    outs = call(r, EG.State(), newk, [('s', MIN), ('s', MAX), ('s', JIT), ('s', RNG)])
    oks = [(s, v) for s, v in outs if v[0] == 'a' and v[2] == 0]

    def validation():
        """every cell of (min, max, jitter): accepted iff valid"""
        acc = {0.0, 100.0}
        durs = {0}
        for s, v in outs:
            if v[0] != 'a' or v[1] != EG.RES:
                raise Unknown("result of new")
            for k in s.facts:
                for t in (k[1:3] if k[0] in ('lt', 'eq', 'le') else k[2:]):
                    if isinstance(t, tuple) and t not in (MIN, MAX, JIT):
                        x = cellval(t, {})
                        (acc if isinstance(x, float) else durs).add(x)
        fs = sorted(acc)
        reps = [float('-inf'), float('inf'), float('nan')] + fs + [fs[0] - 1, fs[-1] + 1] + [(a + b) / 2 for a, b in zip(fs, fs[1:])]
        ds = sorted(durs)
        dr = sorted(set(ds) | {d + k for d in ds for k in (1, 2)} | {max(0, d - k) for d in ds for k in (1, 2)})
        for a, b, j in itertools.product(dr, dr, reps):
            val = {MIN: a, MAX: b, JIT: j}
            good = a <= b and b > 0 and math.isfinite(j) and 0.0 <= j <= 100.0
            got = None
            for s, v in outs:
                if all(cellholds(k, w, val) for k, w in s.facts.items() if k[0] != 'panic'):
                    got = v[2] == 0
                    break
            if got is None:
                raise Unknown("no path for a cell")
            r.need(not got or good, 'accepts-invalid', site(r, newk), "min=%sns max=%sns jitter=%s accepted" % (a, b, j))
            r.need(got or not good, 'refuses-valid', site(r, newk), "min=%sns max=%sns jitter=%s refused" % (a, b, j))
    r.attempt(validation)

    nbk = method_of(r, 'Backoff', 'next_backoff', bok)
    mbk = method_of(r, 'MakeBackoff', 'make_backoff', mkk)
    known = {'checked_mul', 'saturating_pow', 'pow', 'checked_pow', 'saturating_mul', 'new', 'as_secs', 'subsec_nanos', 'from_millis', 'from_secs', 'from_nanos', 'mul_f64', 'is_zero'}

    def vocab(t):
        for x in walk(t):
            if isinstance(x, tuple) and x and (x[0] == 'ext' and x[1] not in known or x[0] in ('num?', 'm') and x[:3] != ('m', 'Rng', 'next_f64') or x[0] in ('rem', 'div', 'shl', 'shr', 'bitand')):
                raise Unknown("term %s" % (x[:2],))

    def prods(n, facts={}):
        """terms which equal min * 2^n for iteration n, 2^n saturating at u32::MAX"""
        nn = ('i', n) if isinstance(n, int) else n
        pw = [('ext', 'saturating_pow', ('i', 2), nn), ('pj', ('ext', 'checked_pow', ('i', 2), nn), 1, 0)]
        if isinstance(n, int):
            pw.append(('i', 2 ** n))
        if facts.get(('var', ('ext', 'checked_pow', ('i', 2), nn))) == 0:
            pw.append(('i', 2 ** 32 - 1))
        ps = []
        for p in pw:
            ps += [('pj', ('ext', 'checked_mul', MIN, p), 1, 0), ('ext', 'saturating_mul', MIN, p)]
        ps += [('mul', MIN, ('i', 2 ** n))] if n in (0, 1) else []
        if n == 0:
            ps.append(MIN)
        return ps

    def step(s, bo, n):
        """one next_backoff from iteration n; yields (state, after) per path"""
        f0 = dict(s.facts)
        outs = call(r, s.copy(), nbk, [('r', bo, ())])
        for fx, a, ta in r.panics:
            if ta or Rel(fx).contradictory():
                continue
            try:
                for k in fx:
                    if k not in f0:
                        vocab(k)
                new = [(k, w) for k, w in fx.items() if k not in f0]
                # conditions on the random share alone: some share in [0, 1) meets them all
                dr = [(k, w) for k, w in new if ('m', 'Rng', 'next_f64', RNG) in k[1:] and k[0] in ('lt', 'le', 'eq') and all(x[0] == 'f' or x[:3] == ('m', 'Rng', 'next_f64') for x in k[1:])]
                feas = any(all(cellholds(k, w, {('m', 'Rng', 'next_f64', RNG): x}) for k, w in dr) for x in (0.0, 1e-9, 0.25, 0.5, 0.75, 1 - 2.0**-53))
            except Unknown:
                continue
            if dr:
                r.need(not feas, 'panics', site(r, nbk), "next_backoff panics (%s) for a random share in [0, 1)" % (a[0],), None)
        del r.panics[:]
        unread = None
        r.need(bool(outs), 'panics', site(r, nbk), "next_backoff of iteration %s panics on every path" % (n if isinstance(n, int) else 'n'), s)
        for s2, x in outs:
            if Rel(s2.facts).contradictory():
                continue
            dl = [a for k, *a in s2.events() if k == 'sleep.new']
            if not dl:
                raise Unknown("delay is not a timer")
            r.need(len(dl) == 1, 'timers', site(r, nbk), "one backoff starts %d timers" % len(dl), s2)
            d = dl[-1][0]
            d = d[1] if d[0] == 's' else d
            ads = addends(d)
            nows = [a for a in ads if a[0] == 'now']
            if len(nows) != 1:
                raise Unknown("deadline %s" % (d,))
            ads = [a for a in ads if a[0] != 'now' and not Rel.zero(a)]
            rel = Rel(s2.facts)
            D = ads[0] if ads else ('dur0',)
            for a in ads[1:]:
                D = ('add', D, a)
            try:
                vocab(D)
                for k, v in s2.facts.items():
                    if k not in f0:
                        vocab(k)
            except Unknown as e:
                if not isinstance(n, int):
                    raise
                refute(n, D, s2, f0)
                unread = e
                continue
            P = prods(n, s2.facts)
            # the documented base on this path
            base = None
            alt = None
            for p in P:
                if s2.facts.get(('var', p[1] if p[0] == 'pj' else None)) == 0 or s2.facts.get(('lt', MAX, p)) == 1 or s2.facts.get(('lt', p, MAX)) == 0:
                    base = MAX
                elif s2.facts.get(('lt', MAX, p)) == 0 or s2.facts.get(('lt', p, MAX)) == 1:
                    base = p
                if s2.facts.get(('eq', MAX, p)) == 1 or s2.facts.get(('eq', p, MAX)) == 1:
                    base, alt = p, MAX
                if base:
                    break
            where = "iteration %s" % (n if isinstance(n, int) else 'n')
            for t in list(walk(D)):
                if isinstance(t, tuple) and t and t[0] == 'sub':
                    r.need(rel.le(t[2], t[1]), 'underflow', site(r, nbk), "%s: %s - %s may be negative" % (where, show(t[1]), show(t[2])), s2)
            r.need(rel.le(D, MAX), 'above-max', site(r, nbk), "%s: nothing bounds the delay %s by the maximum" % (where, show(D)), s2)
            nojit = any(s2.facts.get(k) == 1 for k in (('eq', JIT, ('f', 0.0)), ('eq', ('f', 0.0), JIT), ('le', JIT, ('f', 0.0)))) or s2.facts.get(('lt', ('f', 0.0), JIT)) == 0
            if base is None:
                if n == 0 and (D == MIN or nojit and rel.le(D, MIN) and rel.le(MIN, D)):
                    base = MIN
                else:
                    # no comparison of min * 2^n with the maximum on this path
                    r.need(False, 'not-exponential', site(r, nbk), "%s: the delay %s is not min * 2^n capped at the maximum" % (where, show(D)), s2)
                    continue
            if nojit:
                r.need(D == base or rel.le(D, base) and rel.le(base, D), 'not-exponential', site(r, nbk), "%s: the delay %s is not min * 2^n capped at the maximum" % (where, show(D)), s2)
            else:
                r.need(rel.le(base, D), 'below-base', site(r, nbk), "%s: the jittered delay %s may be below the base %s" % (where, show(D), show(base)), s2)
                w = [jitter_why(b, D, ads, s2) for b in (base, alt) if b is not None]
                r.need(None in w, 'jitter', site(r, nbk), "%s: %s" % (where, w[0]), s2)
            yield s2
        if unread:
            raise unread

    def refute(n, D, s2, f0):
        """arithmetic outside the recognised vocabulary: a point of the argument space on this path where the delay breaks its bounds"""
        for mn, mx, j, x in itertools.product((10**7 + 3, 37 * 10**8 + 11), (10**12, 15 * 10**9), (0.0, 0.25, 1.0, 3.0), (0.0, 1e-3, 0.5, 1 - 2.0**-53)):
            if not mn <= mx:
                continue
            val = {MIN: mn, MAX: mx, JIT: j, ('m', 'Rng', 'next_f64', RNG): x}
            try:
                if not all(numholds(k, w, val) for k, w in s2.facts.items() if k not in f0):
                    continue
                got = numval(D, val)
            except Unknown:
                continue
            base = min(mn * 2**n, mx)
            ok = base - 2 <= got <= min(mx, base + base * j) + 1000
            r.need(ok, 'jitter', site(r, nbk), "iteration %d: with min=%dns max=%dns jitter=%s and a random share of %s the delay is %dns, outside [%d, %d]" % (n, mn, mx, j, x, got, base, min(mx, base + base * j)), s2)
            if not ok:
                return

    def jitter_why(base, D, ads, s2):
        if base in ads and len(ads) == 2:
            rest = list(ads)
            rest.remove(base)
            js = rest
        else:
            js = []
        if D == MAX or js and js[0] == ('sub', MAX, base):
            # capped: by which random amount
            js = [k[2] if v == 1 else k[1] for k, v in s2.facts.items() if k[0] == 'lt' and ('sub', MAX, base) in (k[1], k[2]) and (v == 1) == (k[1] == ('sub', MAX, base))]
            js += [k[2] if k[1] == ('sub', MAX, base) else k[1] for k, v in s2.facts.items() if k[0] == 'eq' and v == 1 and ('sub', MAX, base) in k[1:3]]
            for k, v in s2.facts.items():
                if k[0] == 'lt' and (v == 1 and k[1] == MAX or v == 0 and k[2] == MAX):
                    ds = addends(k[2] if v == 1 else k[1])
                    if base in ds and len(ds) == 2:
                        ds = list(ds)
                        ds.remove(base)
                        js += ds
            js = [j for j in js if not Rel.zero(j) and j != ('sub', MAX, base)]
            if D == base == MAX:
                return None
        if not js:
            return "with jitter the delay is %s, which no random amount led to" % show(D)
        if not any(jitter_ok(j, base) for j in js):
            return "the jitter %s is not (random share) * jitter * base" % show(js[0])
        return None

    def jitter_ok(j, base):
        draw = ('m', 'Rng', 'next_f64', RNG)

        def prod_is(t, b):
            fs = sorted(map(repr, factors(t)))
            return fs == sorted(map(repr, [draw, JIT, b]))
        if j[:2] == ('ext', 'mul_f64'):
            return prod_is(j, base)
        if j[:2] == ('ext', 'new'):
            a, b = j[2], j[3]
            if a[:2] != ('cvt', 'FloatToInt') or b[:2] != ('cvt', 'FloatToInt'):
                return False
            return prod_is(a[2], ('cvt', 'IntToFloat', ('ext', 'as_secs', base))) and prod_is(b[2], ('cvt', 'IntToFloat', ('ext', 'subsec_nanos', base)))
        if j[0] == 'sub':
            return False
        raise Unknown("jitter %s" % (j[:2],))

    def sequence():
        """iterations 0, 1 and 2 of a fresh backoff"""
        for s, v in oks[:1]:
            s = s.copy()
            mk = s.new(v[3][0])
            for s2, b in call(r, s, mbk, [('r', mk, ())]):
                bo = s2.new(b)
                fr = [s2]
                for n in range(3):
                    nx = []
                    for x in fr:
                        nx += list(step(x, bo, n))
                    # the paths of one step lead to the same object up to the random source
                    seen, fr = set(), []
                    for x in nx:
                        k = repr(x.heap[bo])
                        if k not in seen:
                            seen.add(k)
                            y = s2.copy()
                            y.heap[bo] = x.heap[bo]
                            y.trace = None
                            fr.append(y)
    r.attempt(sequence)

    def induction():
        """from iteration n: the object after the call is the one of iteration n + 1"""
        for s, v in oks[:1]:
            s = s.copy()
            mk = s.new(v[3][0])
            for s2, b in call(r, s, mbk, [('r', mk, ())]):
                if b[0] != 'a' or not all(f[0] in ('i', 's') for f in b[3]):
                    raise Unknown("representation of the backoff")
                cnt = [i for i, f in enumerate(b[3]) if f == ('i', 0)]
                if len(cnt) != 1:
                    raise Unknown("no single iteration counter")
                c = cnt[0]
                s3 = s2.copy()
                bo = s3.new(b[:3] + (b[3][:c] + (('s', ('u', 'n')),) + b[3][c + 1:],))
                s3.trace = None
                for x in step(s3, bo, ('u', 'n')):
                    a = x.heap[bo]
                    got = a[3][c]
                    r.need(got in (('s', ('add', ('u', 'n'), ('i', 1))),) or got[0] == 's' and got[1] in (('ext', 'saturating_add', ('u', 'n'), ('i', 1)),), 'counter', site(r, nbk),
                           "the next delay is computed for iteration %s instead of n + 1" % show(got), x)
                    for i, f in enumerate(a[3]):
                        if i != c and b[3][i] != ('s', RNG):
                            r.need(f == b[3][i], 'settings', site(r, nbk), "a backoff changes its own setting %s to %s" % (show(b[3][i]), show(f)), x)
    r.attempt(induction)
    return r.done()


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    if t and t[0] == 's':
        return show(t[1])
    if not t:
        return '()'
    if t[0] in ('add', 'sub', 'mul', 'div', 'rem'):
        return "(%s %s %s)" % (show(t[1]), {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'rem': '%'}[t[0]], show(t[2]))
    if t[0] == 'ext':
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2:]))
    if t[0] == 'm':
        return "%s()" % t[2]
    if t[0] == 'pj':
        return show(t[1])
    if t[0] == 'cvt':
        return show(t[2])
    if t[0] in ('dur', 'u', 'f', 'i', 'isz', 'cell', 'pct'):
        return str(t[1])
    return "(%s)" % " ".join(show(x) for x in t)


def leaves(st, root):
    """every scalar place reachable from an object: {(object, path): value}"""
    out, seen, work = {}, set(), [root]
    while work:
        o = work.pop()
        if o in seen or o not in st.heap:
            continue
        seen.add(o)
        w2 = [((), st.heap[o])]
        while w2:
            p, v = w2.pop()
            if v[0] == 'a':
                w2 += [(p + (i,), x) for i, x in enumerate(v[3])]
            elif v[0] in ('t', 'arr'):
                w2 += [(p + (i,), x) for i, x in enumerate(v[1])]
            elif v[0] in ('r', 'b', 'rc'):
                work.append(v[1])
            else:
                out[(o, p)] = v
    return out


def lval(v):
    return v[1] if v[0] == 's' else v


@rule
def tps_budget(mirdir, tier):
    """the balance a withdrawal looks at is the reserve plus what was deposited less what was withdrawn during the last ttl"""
    import itertools
    from collections import Counter
    from . import comps as C
    r = R(mirdir, 'tps_budget', depth=60)
    en = r.en
    TTL, MINS, PCT = ('dur', 'ttl'), ('u', 'min'), ('f', 'pct')
    SEC = 10**9
    T, W = 10 * SEC, SEC            # the ttl of the sequences below, and a tenth of it
    key = C.adt(en, 'TpsBudget')
    newk = inherent(r, key, 'new', 3)
    wk, dk = method_of(r, 'Budget', 'withdraw', key), method_of(r, 'Budget', 'deposit', key)
    clock = [0]

    def construct():
        st = EG.State()
        st.g['clk'] = ()
        return call(r, st, newk, [('s', TTL), ('s', MINS), ('s', PCT)])
    outs = construct()

    def validation():
        fs, ds, us = {0.0, 1000.0}, {10**9, 60 * 10**9}, {2**31 - 1}
        for s, v in outs:
            for k in s.facts:
                for t in (k[1:3] if k[0] in ('lt', 'eq', 'le') else k[2:]):
                    if isinstance(t, tuple) and t not in (TTL, MINS, PCT):
                        x = cellval(t, {})
                        (fs if isinstance(x, float) else ds if t[0] == 'ext' else us).add(x)
        f2 = sorted(fs)
        freps = [float('-inf'), float('inf'), float('nan'), f2[0] - 1, f2[-1] + 1] + f2 + [(a + b) / 2 for a, b in zip(f2, f2[1:])]
        dreps = sorted({max(0, d + k) for d in ds for k in (-1, 0, 1)})
        ureps = sorted({max(0, u + k) for u in us for k in (-1, 0, 1)})
        for t, u, p in itertools.product(dreps, ureps, freps):
            val = {TTL: t, MINS: u, PCT: p}
            good = 10**9 <= t <= 60 * 10**9 and 0.0 <= p <= 1000.0 and u < 2**31 - 1
            got = any(all(cellholds(k, w, val) for k, w in s.facts.items()) for s, v in outs)
            r.need(not got or good, 'accepts-invalid', site(r, newk), "ttl=%sns min_per_sec=%s retry_percent=%s accepted" % (t, u, p))
            r.need(got or not good, 'refuses-valid', site(r, newk), "ttl=%sns min_per_sec=%s retry_percent=%s refused" % (t, u, p))
    r.attempt(validation)

    # from here on the ttl and the clock are fixed; percentage, reserve and amounts stay symbolic
    def listen(en_, st, kind, a):
        if kind == 'now':
            st.g['clk'] = st.g.get('clk', ()) + ((a[0], clock[0]),)
    en.listeners = list(en.listeners) + [listen]

    def assignment(st):
        val = dict(st.g.get('clk', ()))
        val[TTL] = T
        return val

    def fold(st, t):
        try:
            return num(t, assignment(st))
        except Unknown:
            return None
    en.fold = fold

    def decide(st, op, a, b):
        x, y = fold(st, EG.lv(a)), fold(st, EG.lv(b))
        if x is None or y is None:
            return None
        f = {'Lt': lambda: x < y, 'Le': lambda: x <= y, 'Gt': lambda: x > y, 'Ge': lambda: x >= y, 'Eq': lambda: x == y, 'Ne': lambda: x != y}.get(op)
        return f() if f else None
    en.deciders = (decide,)

    def has(t, head):
        return any(isinstance(x, tuple) and x and x[0] == head for x in walk(t))

    def settle(s, b, base):
        """forget what the last call assumed, and replace clock readings by the instants they are"""
        s.facts = dict(base)
        s.trace = None
        for (o, p), v in leaves(s, b).items():
            t = lval(v)
            if isinstance(t, tuple) and has(t, 'now') and not (t[0] == 'now' and t[1][0] == 'at'):
                k = fold(s, t)
                if k is None:
                    raise Unknown("clock %s" % show(t))
                s.put(o, p, ('s', ('now', ('at', k))))
        s.g['clk'] = ()
        return s

    def changes(a, c, root):
        x, y = leaves(a, root), leaves(c, root)
        if set(x) != set(y):
            raise Unknown("layout of the budget changes")
        return {k: (lval(x[k]), lval(y[k])) for k in x if x[k] != y[k] and not has(lval(y[k]), 'now')}

    def run(s, b, key, at, base):
        """paths of one call at an instant: (state, result)"""
        s = s.copy()
        s.trace = None
        clock[0] = at
        o = call(r, s, key, [('r', b, ())])
        for s2, x in o:
            if s2.taint:
                raise Unknown("unmodelled: %s" % (s2.taint,))
        if key == wk:
            # an answer may be a comparison nothing branched on yet
            from .models import branch
            o = [(s4, EG.TRUE if t else EG.FALSE) for s2, x in o for s4, t in branch(en, s2, x)]
        return o

    def gain(a, c):
        l = linear(c)
        l.subtract(linear(a))
        return {k: v for k, v in l.items() if v}

    def amounts(s, b, base):
        """what a deposit adds and a withdrawal takes, within the first window"""
        D = wd = None
        for s2, x in run(s, b, dk, W // 10, base):
            ch = changes(s, s2, b)
            if not r.need(len(ch) <= 1, 'deposit', site(r, dk), "a deposit changes %d places" % len(ch), s2):
                return None
            for a, c in ch.values():
                l = gain(a, c)
                if len(l) != 1:
                    raise Unknown("deposit %s" % show(c))
                (k, v), = l.items()
                D = ('i', v) if k == ('i', 1) else k if v == 1 else ('mul', ('i', v), k)
        for s2, x in run(s, b, wk, W // 10, base):
            if x == EG.TRUE:
                ch = changes(s, s2, b)
                if not r.need(len(ch) == 1, 'withdraw', site(r, wk), "a granted withdrawal changes %d places" % len(ch), s2):
                    return None
                (a, c), = ch.values()
                l = gain(a, c)
                if len(l) != 1:
                    raise Unknown("withdrawal %s" % show(c))
                (k, v), = l.items()
                wd = ('i', -v) if k == ('i', 1) and v < 0 else k if v == -1 else None
                if wd is None:
                    r.need(False, 'withdraw', site(r, wk), "a granted withdrawal does not debit the budget but adds %s" % show(c), s2)
                    return None
        if wd is None:
            raise Unknown("no granted withdrawal")
        return D, wd

    def ratio(base, D, wd, zero):
        if zero == 1:
            r.need(D is None or D in (('i', 0), ('f', 0.0)), 'ratio', site(r, newk), "with retry_percent 0 a deposit still adds %s" % show(D))
            r.need(wd[0] == 'i' and wd[1] >= 1, 'ratio', site(r, newk), "with retry_percent 0 a withdrawal costs %s" % show(wd))
            return
        if D is None or D[0] != 'i' or D[1] < 1:
            r.need(False, 'ratio', site(r, newk), "a deposit adds %s" % show(D))
            return
        if wd[:2] != ('cvt', 'FloatToInt'):
            if wd[0] == 'i':
                r.need(False, 'ratio', site(r, newk), "the cost of a retry (%s) does not depend on retry_percent" % show(wd))
                return
            raise Unknown("cost %s" % show(wd))
        q = wd[2]
        if q[0] != 'div' or q[1][0] != 'f':
            if q[0] == 'mul' and all(f[0] == 'f' for f in factors(q)):
                r.need(False, 'ratio', site(r, newk), "the cost of a retry grows with retry_percent: %s" % show(wd))
                return
            raise Unknown("cost %s" % show(wd))
        r.need(q[2] == PCT and q[1][1] == float(D[1]), 'ratio', site(r, newk), "a retry costs %s while a deposit adds %s" % (show(wd), show(D)))
        # the cost is never rounded down to nothing within the class
        hi = [c[1] for k, w in base.items() if k[0] in ('lt', 'le') and PCT in k[1:3] for c in [k[2] if k[1] == PCT else k[1]] if c[0] == 'f' and (w == 1) == (k[1] == PCT)]
        if hi and q[2] == PCT:
            r.need(q[1][1] / min(hi) >= 1.0, 'free', site(r, newk), "a retry costs %s, which is nothing for retry_percent up to %s" % (show(wd), min(hi)))

    def knob(s, b, base, key, term, want):
        """the place of the object which holds the amount of this operation"""
        for (o, p), v in leaves(s, b).items():
            if lval(v) != term:
                continue
            s2 = s.copy()
            s2.put(o, p, ('s', ('isz', '?')))
            for s3, x in run(s2, b, key, W // 10, base):
                if want is not None and x != want:
                    continue
                if any(('isz', '?') in gain(a, c) for a, c in changes(s2, s3, b).values()):
                    return (o, p)
        return None

    def decision(s2, w):
        """(the balance compared with the cost, granted?, refused?) of one path"""
        for q, v in s2.facts.items():
            if q[0] not in ('lt', 'le') or not all(isinstance(z, tuple) for z in q[1:3]):
                continue
            l = linear(q[1])
            l.subtract(linear(q[2]))
            k = l.pop(w, 0)
            if k not in (1, -1):
                continue
            c = l.pop(('i', 1), 0)
            S = Counter({z: -n * k for z, n in l.items() if n})
            if not S:
                continue
            # k = -1: S + c < w;  k = +1: w < S - c   (<= is < with the constant moved by one)
            if q[0] == 'le':
                c -= 1
            eq = [u for z, u in s2.facts.items() if z[0] == 'eq' and set(z[1:]) == set(q[1:3])]
            if k == -1:         # S < w - c
                geq = (v == 0) and c <= 0
                less = (v == 1) and c >= 0
            else:               # w < S - c, so S >= w + c + 1
                geq = v == 1 and c >= -1 or v == 0 and c == 0 and eq == [1]
                less = v == 0 and (c <= -1 or c == 0 and eq == [0])
            return S, geq, less
        return None

    zeros = (('i', 0), ('f', 0.0))

    def sequence(s, b, base, ops, Dk, Wk, wd, D):
        """a history of deposits ('d'), refused withdrawals ('w') and granted ones ('g') at given instants"""
        dep, deb = {}, {}
        hist = []
        s = s.copy()
        for n, (at, op) in enumerate(ops):
            hist.append("%s at %.2f" % ({'d': 'deposit', 'w': 'withdrawal refused', 'g': 'withdrawal granted'}[op], at / T))
            where = site(r, dk if op == 'd' else wk)
            said = "ttl 1: " + ", ".join(hist[-14:])
            if op == 'd':
                tag = ('isz', 'd%d' % n)
                s.put(Dk[0], Dk[1], ('s', tag))
                o = run(s, b, dk, at, base)
                got = [(s2, [k for k, v in leaves(s2, b).items() if k != Dk and tag in linear(lval(v) if lval(v)[0] in ('add', 'sub', 'neg', 'isz') else ('i', 0))]) for s2, x in o]
                for s2, x in o:
                    held = 0
                    for q in s2.events():
                        held += (q[0] == 'lock') - (q[0] == 'unlock')
                        if q[0] == 'atomic.store' or q[0] == 'atomic.rmw' and q[2] == 'swap':
                            r.need(held > 0, 'race', where, "the windows are rotated outside the lock", s2)
                if len(got) != 1:
                    raise Unknown("%d paths of a deposit" % len(got))
                s2, cells = got[0]
                if not r.need(len(cells) == 1, 'deposit', where, "a deposit reaches %d places (%s)" % (len(cells), said), s2):
                    return
                dep[tag] = at
                s = settle(s2, b, base)
                continue
            w = ('isz', 'w%d' % n)
            s.put(Wk[0], Wk[1], ('s', w))
            nxt = None
            for s2, x in run(s, b, wk, at, base):
                d = decision(s2, w)
                if d is None:
                    r.need(False, 'undecided', where, "a withdrawal answers %s without comparing the balance with the cost" % bool(x == EG.TRUE), s2)
                    return
                S, geq, less = d
                if x == EG.TRUE:
                    r.need(geq, 'overdraw', where, "a withdrawal is granted although the balance does not cover it", s2)
                else:
                    r.need(less, 'refused', where, "a withdrawal is refused although the balance may cover it", s2)
                rest = Counter()
                for q, k in S.items():
                    if q[0] != 'isz':
                        if q not in zeros:
                            rest[q] += k
                        continue
                for tags, sign, what in ((dep, 1, "a deposit"), (deb, -1, "a granted withdrawal")):
                    for q, u in tags.items():
                        k = S.get(q, 0) * sign
                        age = (at - u) / T
                        if not r.need(0 <= k <= 1, 'counted-twice', where, "%s counts %d times in the balance (%s)" % (what, k, said), s2):
                            return
                        if at - u < T:
                            if not r.need(k == 1, 'forgotten', where, "%s is forgotten after %.2f ttl (%s)" % (what, age, said), s2):
                                return
                        elif at - u >= T + 2 * W:
                            if not r.need(k == 0, 'kept', where, "%s still counts after %.2f ttl (%s)" % (what, age, said), s2):
                                return
                for q in S:
                    if q[0] == 'isz' and q not in dep and q not in deb:
                        r.need(False, 'balance', where, "the balance includes %s" % show(q), s2)
                okr = len(rest) == 1 and list(rest.values()) == [1]
                if okr:
                    fs = [f for f in factors(next(iter(rest))) if f != ('i', 1)]
                    for q in (MINS, wd):
                        if q in fs:
                            fs.remove(q)
                        elif q != ('i', 1):
                            if any(f[0] == 'cvt' for f in fs):
                                raise Unknown("reserve")
                            okr = False
                    if okr:
                        k = 1
                        for f in fs:
                            k = k * num(f, {TTL: T})
                        okr = k == T / SEC
                r.need(okr, 'reserve', site(r, newk), "the reserve is %s instead of min_per_sec * ttl seconds * cost" % ", ".join(map(show, rest)), s2)
                # the debit, and the critical section around decision and debit
                debit = Counter()
                for k, v in leaves(s2, b).items():
                    if k != Wk and lval(v)[0] in ('add', 'sub', 'neg', 'isz'):
                        debit[w] += linear(lval(v)).get(w, 0)
                r.need(debit[w] == (-1 if x == EG.TRUE else 0), 'withdraw', where,
                       "a withdrawal answering %s debits the budget %d times" % (bool(x == EG.TRUE), -debit[w]), s2)
                if x == EG.TRUE:
                    atomic(s2, where)
                if (x == EG.TRUE) == (op == 'g'):
                    if nxt is not None:
                        raise Unknown("several paths of a withdrawal")
                    nxt = s2
            if nxt is None:
                raise Unknown("no path")
            if op == 'g':
                deb[w] = at
            s = settle(nxt, b, base)

    def atomic(s2, where):
        """the balance is read and debited in one critical section"""
        ev = [q for q in s2.events() if q[0] in ('lock', 'unlock', 'atomic.load', 'atomic.rmw', 'atomic.store')]
        if any(q[0] == 'atomic.rmw' and 'compare' in str(q[2]) for q in ev):
            raise Unknown("compare-exchange")
        held, crit, loads, deb = 0, -1, set(), None
        for q in ev:
            if q[0] == 'lock':
                held += 1
                crit += 1
            elif q[0] == 'unlock':
                held -= 1
            elif q[0] == 'atomic.load':
                loads.add(crit if held else None)
            elif q[0] == 'atomic.rmw' and q[2] in ('fetch_add', 'fetch_sub'):
                deb = crit if held else None
        r.need(deb is not None and loads <= {deb}, 'race', where, "the balance is read and debited outside one critical section: concurrent withdrawals can overdraw", s2)
        r.need(held == 0, 'lock', where, "the lock is still held afterwards", s2)

    def at(*xs):
        return [(int(round(x * W)), op) for x, op in xs]

    def histories():
        # one deposit and one granted withdrawal, looked at in regular steps
        steps = (0.5, 0.999, 1, 1.01, 1.5, 1.99, 2.5, 9.99, 10, 12, 25) if tier == 'quick' else \
            (0.25, 0.34, 0.5, 0.7, 0.999, 1, 1.001, 1.01, 1.1, 1.25, 1.5, 1.75, 1.9, 1.99, 2, 2.01, 2.5, 3, 3.3, 4.9, 5, 5.1, 6, 7.5, 9, 9.99, 10, 10.01, 10.99, 11, 11.5, 12, 15, 20, 25)
        for step in steps:
            for off in ((0, 0.99) if tier == 'quick' else (0, 0.5, 0.99, 1, 3.7)):
                for looks in ('w', 'd') if tier == 'quick' else ('w', 'd', 'wd', 'dw'):
                    seq, x, i = [(off, 'd'), (off, 'g')], off, 0
                    while x < off + 13:
                        x += step
                        seq.append((x, looks[i % len(looks)]))
                        i += 1
                    if seq[-1][1] != 'w':
                        seq.append((x, 'w'))
                    yield at(*seq)
        # a deposit and a withdrawal in every window
        yield at(*[(i + 0.3, 'd') for i in range(13)] + [(13, 'w')])
        yield at(*[(i + k, o) for i in range(13) for k, o in ((0.3, 'd'), (0.6, 'g'))] + [(13, 'w')])
        # two looks and a third, at any instants of a grid
        grid = (0, 0.5, 1, 1.5, 2, 9.5, 10, 10.5, 11.5) if tier == 'quick' else (0, 0.5, 1, 1.5, 2, 2.5, 5, 9, 9.5, 10, 10.5, 11, 11.5, 12.5)
        for a, b2, c in itertools.combinations_with_replacement(grid, 3):
            yield at((0.25, 'd'), (0.25 + a, 'w'), (0.25 + b2, 'd'), (0.25 + c, 'w'), (0.25 + c + 5, 'w'))

    def life():
        clock[0] = 0
        full = False
        for s, v in construct():
            s = s.copy()
            b = s.new(v)
            base = dict(s.facts)
            s = settle(s, b, base)
            am = amounts(s, b, base)
            if am is None:
                continue
            D, wd = am
            zero = base.get(('eq', ('f', 0.0), PCT), base.get(('eq', PCT, ('f', 0.0))))
            ratio(base, D, wd, zero)
            Wk = knob(s, b, base, wk, wd, EG.TRUE)
            if Wk is None:
                raise Unknown("cost")
            Dk = None
            if D is not None and D not in zeros:
                Dk = knob(s, b, base, dk, D, None)
                if Dk is None:
                    raise Unknown("amount of a deposit")
            for n, ops in enumerate(histories()):
                if Dk is None:
                    ops = [o for o in ops if o[1] != 'd'] or ops[:0]
                elif full and n % 16:
                    continue
                elif Dk == Wk:
                    raise Unknown("one amount")
                if Dk is None and n % 16:
                    continue
                sequence(s, b, base, ops, Dk, Wk, wd, D)
            full = full or Dk is not None
    r.attempt(life)
    return r.done()


@rule
def random(mirdir, tier):
    """the ranges of the random helpers"""
    from . import comps as C
    r = R(mirdir, 'random')
    en = r.en

    def provided(name):
        ks = [k for k, f in r.F.fns.items() if f["crate"] == 'tower' and f["name"] == name and f["path"].endswith('Rng::' + name)]
        if not ks:
            raise CheckError('Rng::%s not found' % name)
        return ks[0]

    def rng_range():
        k = provided('next_range')
        S, E = ('u', 'start'), ('u', 'end')
        s = EG.State()
        me = s.new(('s', ('rng',)))
        rg = [a for a in r.F.adts if a.endswith('ops::range::Range')][0]
        outs = call(r, s, k, [('r', me, ()), ('a', rg, 0, (('s', S), ('s', E)))])
        r.need(bool(outs), 'panics', site(r, k), "next_range returns on no path")
        for s2, v in outs:
            t = lval(v)
            l = linear(t)
            for x in walk(t):
                if isinstance(x, tuple) and x and x[0] == 'ext':
                    raise Unknown(x[1])
            rem = [a for a in l if a[0] == 'rem']
            if any(a[0] == 'mul' or a[0] in ('shr', 'cvt') for a in l):
                raise Unknown(show(t))
            ok = l.get(S) == 1 and len(l) == 2 and len(rem) == 1 and l[rem[0]] == 1 and dict(linear(rem[0][2])) == {E: 1, S: -1}
            r.need(ok, 'range', site(r, k), "next_range(start..end) is %s, which is not always start <= n < end with every value possible" % show(t), s2)
            if rem:
                r.need(any(x[0] == 'm' and x[2] == 'next_u64' for x in walk(rem[0][1]) if isinstance(x, tuple) and x), 'random', site(r, k), "next_range does not depend on the generator", s2)

    def unit():
        k = provided('next_f64')
        s = EG.State()
        me = s.new(('s', ('rng',)))
        outs = call(r, s, k, [('r', me, ())])
        r.need(bool(outs), 'panics', site(r, k), "next_f64 returns on no path")
        for s2, v in outs:
            lo, hi = interval(lval(v))
            r.need(lo >= 0.0 and hi < 1.0, 'range', site(r, k), "next_f64 ranges over [%s, %s] instead of [0, 1)" % (lo, hi), s2)
            r.need(hi > 0.99, 'range', site(r, k), "next_f64 ranges over [%s, %s] only" % (lo, hi), s2)

    def interval(t):
        """bounds of a term, the generator giving any u64"""
        if t[0] in ('i', 'f'):
            return (t[1], t[1])
        if t[:3] == ('m', 'Rng', 'next_u64'):
            return (0, 2**64 - 1)
        if t[0] == 'const' and str(t[1]).endswith('SIZE'):
            return (8, 8)
        if t[0] == 'cvt':
            a, b = interval(t[2])
            return (float(a), float(b)) if t[1] == 'IntToFloat' else (int(a), int(b)) if t[1] == 'FloatToInt' else (a, b)
        if t[0] in ('add', 'sub', 'mul', 'div', 'shr', 'shl', 'bitand'):
            a, b = interval(t[1])
            c, d = interval(t[2])
            if t[0] == 'add':
                return (a + c, b + d)
            if t[0] == 'sub':
                return (a - d, b - c)
            if t[0] == 'mul':
                q = [a * c, a * d, b * c, b * d]
                return (min(q), max(q))
            if t[0] == 'div' and (c > 0 or d < 0):
                q = [a / c, a / d, b / c, b / d]
                return (min(q), max(q))
            if t[0] == 'shr' and a >= 0:
                return (int(a) >> int(d), int(b) >> int(c))
            if t[0] == 'shl' and a >= 0 and int(b) << int(d) < 2**64:
                return (int(a) << int(c), int(b) << int(d))
            if t[0] == 'bitand' and a >= 0 and c >= 0:
                return (0, min(b, d))
        raise Unknown("term %s" % show(t))

    def sample():
        ks = [k for k, f in r.F.fns.items() if f["crate"] == 'tower' and f["name"] == 'sample_floyd2']
        if not ks:
            raise CheckError('sample_floyd2 not found')
        k = ks[0]
        # every length up to five, every answer of the generator
        for n in (2, 3, 4, 5):
            s = EG.State()
            me = s.new(('s', ('rng',)))
            outs = call(r, s, k, [('r', me, ()), ('i', n)])
            pairs = set()
            for s2, v in outs:
                if v[0] not in ('arr', 't') or not all(x[0] == 'i' for x in v[1]):
                    raise Unknown("result %s" % (v[:1],))
                a, b = (x[1] for x in v[1])
                r.need(a != b, 'distinct', site(r, k), "the two positions drawn of %d may be equal (%d)" % (n, a), s2)
                r.need(0 <= a < n and 0 <= b < n, 'range', site(r, k), "a position drawn of %d may be %s" % (n, (a, b)), s2)
                pairs.add(frozenset((a, b)))
            want = {frozenset((a, b)) for a in range(n) for b in range(a)}
            r.need(want <= pairs, 'coverage', site(r, k), "of %d positions the pairs %s are never drawn" % (n, sorted(map(sorted, want - pairs))))
    def draws():
        """the generator the crate brings hashes something new for every number"""
        said = []

        def hear(en, st, kind, a):
            if kind == 'trait.call' and a[0] in ('Hasher', 'BuildHasher', 'Hash'):
                said.append((a[1], a[2]) + tuple(EG.lv(target(st, x)) for x in a[3]))
        en.listeners = list(en.listeners) + [hear]
        ka = C.adt(en, 'HasherRng')
        ks = [i["methods"]["next_u64"] for i in r.F.impls if i["trait"] and i["trait"].rsplit('::', 1)[-1] == 'Rng' and i["selft"][0] == 'adt' and i["selft"][1] == ka and "next_u64" in i["methods"]]
        if not ks:
            raise Unknown("HasherRng is no Rng")
        made = C.new(en, EG.State(), 'HasherRng', 'with_hasher', [EG.sym('bh', 'h')])
        if len(made) != 1:
            raise Unknown("with_hasher returns on %d paths" % len(made))
        s, v = made[0]
        o = s.new(v)
        seen = {}
        for n in range(300):
            said.clear()
            outs = call(r, s, ks[0], [('r', o, ())])
            if len(outs) != 1:
                raise Unknown("next_u64 returns on %d paths" % len(outs))
            s, x = outs[0]
            untainted(s)
            sig = (lval(x), tuple(said))
            if 'Hasher' not in repr(sig):
                raise Unknown("the number is %s" % show(lval(x)))
            if not r.need(sig not in seen, 'repeats', site(r, ks[0]), "draw %d of a HasherRng hashes the very same input as draw %d" % (n, seen.get(sig, -1)), s):
                break
            seen[sig] = n

    def boxed():
        ks = [i["methods"]["next_u64"] for i in r.F.impls if i["trait"] and i["trait"].rsplit('::', 1)[-1] == 'Rng' and i["selft"][0] == 'adt' and i["selft"][1].endswith('::Box') and "next_u64" in i["methods"]]
        if not ks:
            raise Unknown("Box is no Rng")
        s = EG.State()
        b = s.new(('b', s.new(('s', ('rng',)))))
        for s2, x in call(r, s, ks[0], [('r', b, ())]):
            untainted(s2)
            t = lval(x)
            r.need(t[:3] == ('m', 'Rng', 'next_u64'), 'random', site(r, ks[0]), "a boxed generator answers %s" % show(t), s2)
    r.attempt(rng_range)
    r.attempt(unit)
    r.attempt(sample)
    r.attempt(draws)
    r.attempt(boxed)
    return r.done()


class Poly:
    """real-arithmetic normal form: {product of atoms: coefficient}; durations are split in seconds and nanoseconds"""

    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if abs(v) > 1e-15}

    @staticmethod
    def atom(a):
        return Poly({(a,): 1.0})

    @staticmethod
    def const(c):
        return Poly({(): float(c)})

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0.0) + v
        return Poly(d)

    def __mul__(self, o):
        d = {}
        for k, v in self.d.items():
            for q, w in o.d.items():
                m = tuple(sorted(k + q, key=repr))
                d[m] = d.get(m, 0.0) + v * w
        return Poly(d)

    def __neg__(self):
        return Poly({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + -o

    def key(self):
        return tuple(sorted(((k, round(v, 9)) for k, v in self.d.items()), key=repr))

    def same(self, o):
        ks = set(self.d) | set(o.d)
        return all(abs(self.d.get(k, 0.0) - o.d.get(k, 0.0)) <= 1e-9 * max(1.0, abs(self.d.get(k, 0.0))) for k in ks)

    def atoms(self):
        return {a for k in self.d for a in k}


def inverse(q):
    """1 / q"""
    if len(q.d) != 1:
        return Poly.atom(('inv', q.key()))
    (k, c), = q.d.items()
    out = Poly.const(1.0 / c)
    for a in k:
        if a[0] == 'exp':
            out = out * Poly.atom(('exp', (-Poly(dict(a[1]))).key()))
        elif a[0] == 'inv':
            out = out * Poly(dict(a[1]))
        else:
            out = out * Poly.atom(('inv', Poly.atom(a).key()))
    return out


def poly(t):
    """a numeric term as a polynomial; divisions and exponentials are atoms over normal forms"""
    h = t[0]
    if h in ('i', 'f') and isinstance(t[1], (int, float)):
        return Poly.const(t[1])
    if h == 'add':
        return poly(t[1]) + poly(t[2])
    if h == 'sub':
        return poly(t[1]) - poly(t[2])
    if h == 'neg':
        return -poly(t[1])
    if h == 'mul':
        return poly(t[1]) * poly(t[2])
    if h == 'cvt':
        if t[1] == 'FloatToInt':
            raise Unknown("rounding")
        return poly(t[2])
    if h == 'div':
        return poly(t[1]) * inverse(poly(t[2]))
    if h == 'ext' and len(t) == 3:
        if t[1] == 'exp':
            return Poly.atom(('exp', poly(t[2]).key()))
        if t[1] == 'exp_m1':
            return Poly.atom(('exp', poly(t[2]).key())) - Poly.const(1)
        if t[1] in ('subsec_nanos', 'as_secs', 'as_nanos', 'as_secs_f64', 'as_secs_f32'):
            return span(t[2], t[1])
        if t[1] == 'recip':
            return poly(('div', ('i', 1), t[2]))
    if h == 'ext' and len(t) == 4 and t[1] == 'mul_add':
        raise Unknown("mul_add")
    if h == 'ext' and t[1] == 'mul_add' and len(t) == 5:
        return poly(t[2]) * poly(t[3]) + poly(t[4])
    if h in ('f', 'u', 'prior', 'now'):
        return Poly.atom(t)
    raise Unknown("term %s" % show(t)[:80])


def span(d, unit='as_nanos'):
    """a duration as nanoseconds (or what the accessor answers)"""
    if d[0] == 'sub' and d[1] == d[2] or d == ('dur0',):
        return Poly()
    if d[0] == 'i' and d[1] == 0 or Rel.zero(d):
        return Poly()
    if d[0] not in ('dur', 'sub') or d[0] == 'sub' and not all(x[0] == 'now' for x in d[1:3]):
        raise Unknown("duration %s" % show(d)[:80])
    sub, sec = Poly.atom(('subsec', d)), Poly.atom(('sec', d))
    return {'subsec_nanos': sub, 'as_secs': sec, 'as_nanos': sub + Poly.const(1e9) * sec,
            'as_secs_f64': sec + Poly.const(1e-9) * sub, 'as_secs_f32': sec + Poly.const(1e-9) * sub}[unit]


@rule
def rate_refused(mirdir, tier):
    """every cell of (num, per): Rate::new accepts exactly a positive number per a positive time"""
    import itertools
    from . import comps as C
    r = R(mirdir, 'rate_refused')
    NUM, PER = ('u', 'num'), ('dur', 'per')
    newk = inherent(r, C.adt(r.en, 'Rate', module='rate'), 'new', 2)

    def cells():
        st = EG.State()
        outs = call(r, st, newk, [('s', NUM), ('s', PER)])
        for n, p in itertools.product((0, 1, 2, 7, 10**6, 2**64 - 1), (0, 1, 999, 10**6, 10**9, 61 * 10**9)):
            val = {NUM: n, PER: p}
            got = any(all(numholds(k, w, val) for k, w in s.facts.items()) for s, v in outs)
            r.need(not got or n and p, 'accepts-invalid', site(r, newk), "a rate of %d per %dns is accepted" % (n, p))
            r.need(got or not (n and p), 'refuses-valid', site(r, newk), "a rate of %d per %dns is refused" % (n, p))
    r.attempt(cells)
    return r.done()


@rule
def peak_discover(mirdir, tier):
    """endpoints found through the load-tracking discovery wrapper carry the settings it was given"""
    return peak_ewma(mirdir, tier, True)


@rule
def peak_ewma(mirdir, tier, only=False):
    """the estimate: a peak at once, otherwise the decayed mean; the load: the estimate times one more than the pending requests"""
    from . import comps as C
    r = R(mirdir, 'peak_discover' if only else 'peak_ewma', depth=90)
    en = r.en
    RTT, DEC, PRIOR, U0 = ('dur', 'rtt'), ('f', 'decay'), ('f', 'prior'), ('now', ('@', -1))
    COMPLETE = ('a', C.adt(en, 'CompleteOnResponse'), 0, ())
    k = C.adt(en, 'PeakEwma')
    newk = inherent(r, k, 'new', 4)
    lk = method_of(r, 'Load', 'load', k)
    nows = []

    def tick(en, st, kind, a):
        if kind == 'now':
            st.g['ticks'] = st.g.get('ticks', ()) + (a[0],)
    en.listeners = list(en.listeners) + [tick]

    def fresh(s, o, ns0, dec):
        """name the estimate and the time of its last update; (state, place of the estimate, place of the time)"""
        ls = leaves(s, o)
        est = [q for q, v in ls.items() if lval(v)[0] not in ('now', 'i', 'svc') and v[0] == 's' and trypoly(lval(v)) is not None and trypoly(lval(v)).same(ns0)]
        at = [q for q, v in ls.items() if lval(v)[0] == 'now']
        if len(est) != 1 or len(at) != 1:
            raise Unknown("estimate cells %s %s" % (est, at))
        s.put(est[0][0], est[0][1], ('s', PRIOR))
        s.put(at[0][0], at[0][1], ('s', U0))
        for f in [f for f in s.facts if any(isinstance(x, tuple) and x and x[0] in ('dur', 'now') for x in walk(f))]:
            del s.facts[f]
        return s, est[0], at[0]

    def trypoly(t):
        try:
            return poly(t)
        except (Unknown, TypeError, IndexError):
            return None

    def settled(s, s2, est, at, rtt, where, ticks, must):
        """the estimate after an observation of `rtt` (a polynomial): every path"""
        e, u = lval(s2.get(*est)), lval(s2.get(*at))
        E = poly(e)
        P = Poly.atom(PRIOR)
        # a path on which the peak rule applies, as its condition says
        peak = None
        for q, w in s2.facts.items():
            if q[0] in ('lt', 'le') and q not in s.facts:
                a, b = trypoly(q[1]), trypoly(q[2])
                if a is None or b is None:
                    continue
                if a.same(P) and b.same(rtt):
                    peak = bool(w)
                elif b.same(P) and a.same(rtt):
                    peak = not w
        if peak and not rtt.d:
            return            # no positive estimate is below zero
        if peak:
            r.need(E.same(rtt), 'peak-lost', where, "a round trip above the estimate leaves the estimate at %s instead of the round trip" % show(e), s2)
            r.need(u in ticks, 'clock', where, "the estimate is updated but not the time of the update", s2)
            return
        if E.same(P) and not must:
            r.need(u == U0, 'clock', where, "the time of the update moves without the estimate", s2)
            return
        good = False
        for t in set(ticks):
            d = Poly.atom(('exp', (-(span(('sub', t, U0))) * Poly.atom(('inv', Poly.atom(DEC).key()))).key()))
            if E.same(P * d + rtt * (Poly.const(1) - d)):
                good = True
                r.need(u == t, 'clock', where, "the estimate is decayed up to one instant and the time of the update is another", s2)
        if peak is None and E.same(rtt):
            raise Unknown("condition of the peak rule")
        r.need(good, 'estimate', where, "an observation below the estimate turns the estimate into %s, which is not prior*d + rtt*(1-d) with d = exp(-elapsed/decay)" % show(e)[:300], s2)

    def base():
        outs = [(s, v) for s, v in call(r, EG.State(), newk, [C.svc(), ('s', RTT), ('s', DEC), COMPLETE])]
        r.need(bool(outs), 'panics', site(r, newk), "new returns on no path")
        for s, v in outs:
            o = s.new(v)
            yield fresh(s, o, span(RTT), DEC) + (o,)

    def request(s, o):
        """send one request: (state, object of the response future, instants sampled)"""
        s = s.copy()
        s.g['ticks'] = ()
        out = []
        s.ts[('svc', 'in')] = 'R'
        for s2, v in en.call_trait(s, None, C.SVC, 'call', [('r', o, ()), ('s', ('req', s.fresh()))]):
            if s2.taint:
                raise Unknown(str(s2.taint))
            out.append((s2, s2.new(v), s2.g['ticks']))
        return out

    def loads(s, o, est, at, n):
        s = s.copy()
        s.g['ticks'] = ()
        for s2, v in call(r, s, lk, [('r', o, ())]):
            if s2.taint:
                raise Unknown(str(s2.taint))
            if v[0] != 'a' or len(v[3]) != 1:
                raise Unknown("metric")
            settled(s, s2, est, at, Poly(), site(r, lk), s2.g['ticks'], False)
            E = poly(lval(s2.get(*est)))
            if not E.d:
                continue
            c = poly(lval(v[3][0]))
            r.need(c.same(E * Poly.const(n + 1)), 'cost', site(r, lk), "with %d requests pending the load is %s: not the estimate times %d" % (n, show(lval(v[3][0]))[:300], n + 1), s2)

    def load():
        for s, est, at, o in base():
            loads(s, o, est, at, 0)
            for s1, f1, t1 in request(s, o):
                loads(s1, o, est, at, 1)
                for s2, f2, t2 in request(s1, o):
                    loads(s2, o, est, at, 2)
                    for s3 in finish(s2, f1, 'drop'):
                        s3.put(est[0], est[1], ('s', PRIOR))
                        s3.put(at[0], at[1], ('s', U0))
                        loads(s3, o, est, at, 1)

    def finish(s, f, how):
        """the response future is dropped, or resolves and is then dropped"""
        s = s.copy()
        s.g['ticks'] = ()
        if how == 'drop':
            return en.drop_at(s, f, ())
        out = []
        cx = ('r', s.new(EG.lib('Cx', EG.sym('waker', 'w'))), ())
        for s2, v in en.call_trait(s, None, 'core::future::future::Future', 'poll', [EG.pin(('r', f, ())), cx]):
            sh, val = C.shape(v)
            if sh == 'P':
                continue
            for s3 in en.drop_value(s2, v):
                out += en.drop_at(s3, f, ())
        return out

    def ready(s, o):
        """a readiness poll which succeeds"""
        s = s.copy()
        cx = ('r', s.new(EG.lib('Cx', EG.sym('waker', 'w'))), ())
        for s2, v in en.call_trait(s, None, C.SVC, 'poll_ready', [('r', o, ()), cx]):
            if s2.taint:
                raise Unknown(str(s2.taint))
            if C.shape(v)[0] == 'ok':
                yield s2

    def before():
        """histories after which a request is sent: none, one readiness poll (some time ago), an earlier request"""
        for s, est, at, o in base():
            yield s, est, at, o
            n = 0
            for s1 in ready(s, o):
                n += 1
                if lval(s1.get(*est)) != PRIOR:
                    r.need(False, 'early', 'PeakEwma::poll_ready', "a readiness poll changes the estimate", s1)
                    continue
                yield s1, est, at, o
                for s2, f, sent in request(s1, o):
                    for how in ('drop', 'poll'):
                        for s3 in finish(s2, f, how):
                            s3.put(est[0], est[1], ('s', PRIOR))
                            s3.put(at[0], at[1], ('s', U0))
                            for s4 in ready(s3, o):
                                yield s4, est, at, o
            if not n:
                raise Unknown("readiness of the wrapped service")

    def observe():
        """a request which completes, fails or is dropped is one observation of the time since it was sent"""
        for s, est, at, o in before():
            for s1, f, sent in request(s, o):
                r.need(lval(s1.get(*est)) == PRIOR, 'early', 'PeakEwma::call', "sending a request changes the estimate", s1)
                for how in ('drop', 'poll'):
                    for s2 in finish(s1, f, how):
                        if s2.taint:
                            raise Unknown(str(s2.taint))
                        # the fields of the future are gone: one observation, not none, not two
                        ticks = s2.g['ticks']
                        cand = [(a, b) for a in sent for b in ticks]
                        if not cand:
                            r.need(False, 'unobserved', 'PeakEwma', "a request which %s is not observed" % {'drop': 'was dropped', 'poll': 'completed'}[how], s2)
                            continue
                        saved = len(r.findings)
                        for i, (a, b) in enumerate(cand):
                            del r.findings[saved:]
                            settled(s1, s2, est, at, span(('sub', b, a)), 'PeakEwma handle (%s)' % how, ticks, True)
                            if len(r.findings) == saved:
                                break

    def discovered():
        """endpoints found through PeakEwmaDiscover start from the default round trip and decay"""
        dk = C.adt(en, 'PeakEwmaDiscover')
        nk = inherent(r, dk, 'new', 4)
        n = 0

        def roles(s, o, dec):
            out = []
            for y in leaves(s, o).values():
                if y[0] == 's' and lval(y)[0] not in ('now', 'svc', 'completion'):
                    q = trypoly(lval(y))
                    out.append('?' if q is None else 'rtt' if q.same(span(RTT)) else 'decay' if q.same(dec) else '?')
            return [x for x in out if x != '?']
        want = None
        for s, v in call(r, EG.State(), newk, [C.svc(), ('s', RTT), ('s', DEC), COMPLETE]):
            want = roles(s, s.new(v), Poly.atom(DEC))
        for s, v in call(r, EG.State(), nk, [('s', ('disc', 'd')), ('s', RTT), ('s', ('dur', 'decay')), COMPLETE]):
            o = s.new(v)
            cx = ('r', s.new(EG.lib('Cx', EG.sym('waker', 'w'))), ())
            for s2, x in en.call_trait(s, None, C.STREAM, 'poll_next', [EG.pin(('r', o, ())), cx]):
                for pe in [y for y in walk(x) if isinstance(y, tuple) and len(y) == 4 and y[0] == 'a' and y[1] == k]:
                    n += 1
                    po = s2.new(pe)
                    got = roles(s2, po, span(('dur', 'decay')))
                    ls = [trypoly(lval(y)) for y in leaves(s2, po).values() if y[0] == 's' and lval(y)[0] not in ('now', 'svc')]
                    ls = [y for y in ls if y is not None]
                    r.need(got == want, 'default', site(r, nk), "a discovered endpoint is set up with %s, one made directly with %s" % (got, want), s2)
                    r.need(any(y.same(span(RTT)) for y in ls), 'default', site(r, nk), "a discovered endpoint does not start from the default round trip", s2)
                    r.need(any(y.same(span(('dur', 'decay'))) for y in ls), 'default', site(r, nk), "a discovered endpoint does not decay over the period given", s2)
        r.need(n > 0, 'nothing', site(r, nk), "no endpoint is discovered on any path")
    if only:
        r.attempt(discovered)
        return r.done()
    r.attempt(load)
    r.attempt(observe)
    return r.done()


def num(t, val):
    """value of a numeric term (durations in ns) under an assignment of its atoms"""
    if t in val:
        return val[t]
    h = t[0]
    if h == 'now' and t[1][0] == 'at':
        return t[1][1]
    if h in ('i', 'f') and isinstance(t[1], (int, float)):
        return t[1]
    if Rel.zero(t):
        return 0
    if h in ('add', 'sub', 'mul', 'div', 'rem'):
        a, b = num(t[1], val), num(t[2], val)
        if h in ('div', 'rem') and b == 0:
            raise Unknown('division by zero')
        if h == 'div' and isinstance(a, int) and isinstance(b, int):
            return a // b
        return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'div': lambda: a / b, 'rem': lambda: a % b}[h]()
    if h == 'ext' and len(t) >= 3:
        a = [num(x, val) for x in t[2:]]
        f = {'as_secs': lambda d: d // 10**9, 'subsec_nanos': lambda d: d % 10**9, 'as_nanos': lambda d: d, 'as_micros': lambda d: d // 1000, 'as_millis': lambda d: d // 10**6,
             'subsec_millis': lambda d: d % 10**9 // 10**6, 'subsec_micros': lambda d: d % 10**9 // 1000,
             'as_secs_f64': lambda d: d / 1e9, 'as_secs_f32': lambda d: d / 1e9, 'saturating_add': lambda x, y: x + y, 'saturating_mul': lambda x, y: x * y,
             'saturating_sub': lambda x, y: max(0, x - y), 'mul_f64': lambda x, y: x * y, 'mul_f32': lambda x, y: x * y,
             'div_f64': lambda x, y: x / y, 'from_secs': lambda x: x * 10**9, 'from_millis': lambda x: x * 10**6, 'from_nanos': lambda x: x,
             'min': min, 'max': max, 'floor': lambda x: float(int(x))}.get(t[1])
        if f:
            return f(*a)
    if h == 'cvt':
        a = num(t[2], val)
        if t[1].startswith('Trunc'):
            return a % (1 << int(t[1][5:]))
        return int(a) if t[1] == 'FloatToInt' else float(a) if t[1] == 'IntToFloat' else a
    raise Unknown("term %s" % (t,))


@rule
def latency_window(mirdir, tier):
    """the latencies a hedge decision looks at are the successful ones of the period before the current one"""
    import itertools
    from . import comps as C
    from . import mgc
    r = R(mirdir, 'latency_window')
    en = r.en
    PD = 1500000000
    clock = [0]
    length = [PD]

    boom = []
    recs = []

    def listen(en_, st, kind, a):
        if kind == 'panic':
            boom.append(a[0])
        elif kind == 'now':
            st.g['clk'] = st.g.get('clk', ()) + ((a[0], clock[0]),)
        elif kind == 'hist.record':
            recs.append((st, a[1]))
            st.g['hc'] = st.g.get('hc', ()) + ((a[0], st.g.get('step', 0)),)
        elif kind == 'hist.clear':
            st.g['hc'] = tuple(x for x in st.g.get('hc', ()) if x[0] != a[0])
        elif kind == 'hist.len':
            st.g['seen'] = st.g.get('seen', ()) + (('len', inside(st, a[0][2])),)
        elif kind == 'sleep.new':
            for q in walk(a[0] if a[0][0] != 's' else a[0][1]):
                if isinstance(q, tuple) and len(q) == 4 and q[:2] == ('u', 'quantile'):
                    st.g['seen'] = st.g.get('seen', ()) + (('quantile', inside(st, q[2])),)
                    break

    def inside(st, h):
        return tuple(sorted(x[1] for x in st.g.get('hc', ()) if x[0] == h))
    en.listeners = list(en.listeners) + [listen]

    def decide(st, op, a, b):
        val = dict(st.g.get('clk', ()))
        val[('dur', 'period')] = length[0]
        try:
            x, y = (num(EG.lv(v), val) for v in (a, b))
        except Unknown:
            return None
        f = {'Lt': lambda: x < y, 'Le': lambda: x <= y, 'Gt': lambda: x > y, 'Ge': lambda: x >= y, 'Eq': lambda: x == y, 'Ne': lambda: x != y}.get(op)
        return f() if f else None
    en.deciders = (decide,)

    def at(x):
        clock[0] = int(x * length[0])

    POINTS = (0, 0.4, 1, 1.5, 2, 2.5, 3.5) if tier == 'quick' else (0, 0.25, 0.5, 1, 1.25, 1.75, 2, 2.5, 3, 3.25, 4.5, 7)

    def ring():
        """RotatingHistogram alone: any recordings and readings at up to three instants"""
        key = C.adt(en, 'RotatingHistogram')
        nk, rk, wk = inherent(r, key, 'new', 1), inherent(r, key, 'read', 1), inherent(r, key, 'write', 1)

        def label(s, x):
            while x[0] in ('r', 'b'):
                x = s.get(*s.deref(x))
            if x[0] != 'a' or x[1] != 'lib:Hist':
                raise Unknown("read/write does not return a histogram")
            return x[3][0][1]
        for kinds in ('wrr', 'wwr', 'rwr', 'wrwr', 'wwrr', 'wrrr'):
            for seq in itertools.combinations_with_replacement(POINTS, len(kinds)):
                at(0)
                outs = call(r, EG.State(), nk, [('s', ('dur', 'period'))])
                live = []
                for s, v in outs:
                    b = s.new(v)
                    live.append((s, b, ()))
                for n, (t, k) in enumerate(zip(seq, kinds)):
                    at(t)
                    nxt = []
                    for s, b, rec in live:
                        for s2, x in call(r, s, rk if k == 'r' else wk, [('r', b, ())]):
                            if s2.taint:
                                raise Unknown("unmodelled: %s" % (s2.taint,))
                            h = label(s2, x)
                            if k == 'w':
                                s2.g['hc'] = s2.g.get('hc', ()) + ((h, n),)
                                nxt.append((s2, b, rec + ((n, t),)))
                            else:
                                want = tuple(i for i, u in rec if int(u) == int(t) - 1)
                                r.need(inside(s2, h) == want, 'latency-window', site(r, rk),
                                       "read %s periods after creation sees %d recordings, %d were made in the period before (made at %s periods)" % (t, len(inside(s2, h)), len(want), [u for i, u in rec]), s2)
                                nxt.append((s2, b, rec))
                    live = nxt
    r.attempt(ring)

    def ends():
        """a very short period, and one of no length at all: neither wraps around nor panics"""
        key = C.adt(en, 'RotatingHistogram')
        nk, rk, wk = inherent(r, key, 'new', 1), inherent(r, key, 'read', 1), inherent(r, key, 'write', 1)
        WRAP = 1 << 32
        for per, gaps in ((1000, (2, WRAP, WRAP + 1)), (0, (0, 1, WRAP))):
            for gap in gaps:
                length[0] = per
                clock[0] = 0
                boom.clear()
                live = []
                for s, v in call(r, EG.State(), nk, [('s', ('dur', 'period'))]):
                    o = s.new(v)
                    for s2, x in call(r, s, wk, [('r', o, ())]):
                        while x[0] in ('r', 'b'):
                            x = s2.get(*s2.deref(x))
                        s2.g['hc'] = s2.g.get('hc', ()) + ((x[3][0][1], 0),)
                        live.append((s2, o))
                clock[0] = gap * (per or 1)
                for s, o in live:
                    for s2, x in call(r, s, rk, [('r', o, ())]):
                        if s2.taint:
                            raise Unknown("unmodelled: %s" % (s2.taint,))
                        while x[0] in ('r', 'b'):
                            x = s2.get(*s2.deref(x))
                        r.need(not inside(s2, x[3][0][1]) or per == 0 and gap < 2, 'latency-window', site(r, rk),
                               "with a period of %d ns a latency recorded %d ns ago is still looked at" % (per, clock[0]), s2)
                r.need(not boom, 'latency-panic', site(r, rk), "a histogram with a period of %d ns panics: %s" % (per, boom[:1]), EG.State())
        length[0] = PD
    r.attempt(ends)

    def use():
        """a hedged service: which recordings the decision and the delay look at"""
        comp = C.REG['Hedge']()
        at(0)
        st0 = EG.State()
        for T in (0.5, 1.2, 2.4):
            at(0)
            for s, v in comp.build(en, st0.copy()):
                o = s.new(v)

                def dispatch(s, n):
                    for k in list(s.ts):
                        if k[0] == 'svc':
                            s.ts[k] = 'R'
                    s.ts[('svc', 'in')] = 'R'
                    s.g['step'] = n
                    s.g.pop('seen', None)
                    return en.call_trait(s, None, mgc.SVC, 'call', [('r', o, ()), ('s', ('req', n))])
                outs = []
                sites = 'Hedge::call (%s)' % T
                at(0.1)
                for s1, f in dispatch(s.copy(), 1):
                    fo = s1.new(f)
                    at(0.3)
                    cx = ('r', s1.new(EG.lib('Cx', ('s', ('waker', 'cur')))), ())
                    for s2, res in en.call_trait(s1, None, mgc.FUT, 'poll', [EG.pin(('r', fo, ())), cx]):
                        sh, val = mgc.shape(res)
                        if s2.taint:
                            raise Unknown("unmodelled: %s" % (s2.taint,))
                        at(T)
                        done = 1 if sh == 'ok' else 0
                        for s3, f2 in dispatch(s2.copy(), 2):
                            r.paths += 1
                            for what, got in s3.g.get('seen', ()):
                                want = (1,) * done if int(T) == 1 else ()
                                r.need(got == want, 'latency-window', 'hedge::Hedge::call',
                                       "a request sent %s periods after creation looks at %d latencies (%s) although %d successful ones were recorded in the period before" % (T, len(got), what, len(want)), s3)
    r.attempt(use)

    def value():
        """what is recorded for a successful attempt: the time it took, in milliseconds, rounded either way"""
        comp = C.REG['Hedge']()
        start = 100000000
        for took in (0, 1, 999999, 1000000, 1000001, 250000000, 1000000000, 2300000000, 61000400000):
            clock[0] = 0
            right = False
            for s, v in comp.build(en, EG.State()):
                o = s.new(v)
                s.ts[('svc', 'in')] = 'R'
                clock[0] = start
                for k in list(s.ts):
                    if k[0] == 'svc':
                        s.ts[k] = 'R'
                for s1, fv in en.call_trait(s, None, mgc.SVC, 'call', [('r', o, ()), ('s', ('req', 1))]):
                    fo = s1.new(fv)
                    clock[0] = start + took
                    del recs[:]
                    cx = ('r', s1.new(EG.lib('Cx', ('s', ('waker', 'cur')))), ())
                    for s2, res in en.call_trait(s1, None, mgc.FUT, 'poll', [EG.pin(('r', fo, ())), cx]):
                        r.paths += 1
                    for s2, x in recs:
                        val = dict(s2.g.get('clk', ()))
                        val[('dur', 'period')] = PD
                        n = num(EG.lv(x), val)
                        # a hedge dispatched and answered in that very poll took no time
                        right |= n > 0
                        r.need(n == 0 or took // 10**6 <= n <= -(-took // 10**6), 'latency-value', 'hedge::Hedge', "an attempt which took %d ns is recorded as %s ms" % (took, n), s2)
            r.need(right or took < 10**6, 'latency-value', 'hedge::Hedge', "an attempt which took %d ns is not recorded with that latency" % took)
    r.attempt(value)
    en.deciders = ()
    en.violations.clear()       # the protocol rules have checks of their own
    return r.done()


@rule
def filter_check(mirdir, tier):
    """the `check` methods of the filters answer what the predicate answers, and touch nothing else"""
    from . import comps as C
    from . import spec as SP
    r = R(mirdir, 'filter_check', depth=60)
    en = r.en
    REQ = ('s', ('req', 'r'))
    seen = []

    def hear(en, st, kind, a):
        if kind in ('trait.call', 'svc.ready', 'svc.call'):
            st.g['heard'] = st.g.get('heard', ()) + ((kind,) + tuple(a[:2]) + tuple(a[3:] if kind == 'trait.call' else ()),)
    en.listeners = list(en.listeners) + [hear]

    def judge(name, where, s, got, want):
        if s.taint:
            raise Unknown(str(s.taint))
        h = s.g.get('heard', ())
        if not r.need(len(h) == 1 and h[0][0] == 'trait.call', 'consulted', where, "check consults the predicate and its surroundings %d times (%s)" % (len(h), [x[0] for x in h]), s):
            return
        r.need(SP.nl(s, got) in want, 'answer', where, "check answers %s, the predicate %s" % (SP.show(SP.nl(s, got)), [SP.show(x) for x in want]), s)

    def sync():
        k = C.adt(en, 'Filter')
        key = inherent(r, k, 'check', 2)
        for s, v in C.new(en, EG.State(), 'Filter', 'new', [C.svc(), EG.sym('pred', 'f')]):
            o = s.new(v)
            for s2, x in call(r, s.copy(), key, [('r', o, ()), REQ]):
                c = ('m', 'Predicate', 'check', ('pred', 'f'), ('req', 'r'))
                judge('Filter', site(r, key), s2, x, (c, ('ok', ('pj', c, 0, 0)), ('err', ('pj', c, 1, 0))))
                seen.append(1)
        if not seen:
            raise Unknown("nothing returned")

    def asynch():
        k = C.adt(en, 'AsyncFilter')
        key = inherent(r, k, 'check', 2)
        n = 0
        for s, v in C.new(en, EG.State(), 'AsyncFilter', 'new', [C.svc(), EG.sym('pred', 'f')]):
            o = s.new(v)
            for s2, x in call(r, s.copy(), key, [('r', o, ()), REQ]):
                f = s2.new(x)
                work, turns = [s2], 0
                while work and turns < 4:
                    turns += 1
                    nxt = []
                    for s3 in work:
                        cx = ('r', s3.new(EG.lib('Cx', EG.sym('waker', 'w'))), ())
                        for s4, y in en.call_trait(s3.copy(), None, 'core::future::future::Future', 'poll', [EG.pin(('r', f, ())), cx]):
                            sh, val = C.shape(y)
                            if sh == 'P':
                                nxt.append(s4)
                                continue
                            n += 1
                            c = ('m', 'AsyncPredicate', 'check', ('pred', 'f'), ('req', 'r'))
                            judge('AsyncFilter', site(r, key), s4, y[3][0], tuple(SP.both(c)) + (('out', c),))
                    work = nxt[:1]
        if not n:
            raise Unknown("never ready")
    r.attempt(sync)
    r.attempt(asynch)
    return r.done()


@rule
def layers(mirdir, tier):
    """a layer, a builder method and a combinator build what the constructor of the middleware builds, in the documented order"""
    from . import comps as C
    from . import spec as SP
    r = R(mirdir, 'layers')
    en = r.en
    F_, S, U, D, POL, PRED = C.FN, C.svc(), EG.sym('u', 'n'), EG.sym('dur', 'd'), EG.sym('policy', 'p'), EG.sym('pred', 'f')
    LAYER = 'tower_layer::Layer'
    A, B = EG.sym('layer', 'A'), EG.sym('layer', 'B')

    def key(st, v):
        s = EG.State()
        s.heap = dict(st.heap)
        s.g = {'root': v, 'tasks': tuple(st.g.get('tasks', ()))}
        return EG.canon(s)[0]

    def ctor(name, args, method='new', module=None):
        def go(st, s):
            return C.new(en, st, name, method, [s if a == '$' else a for a in args], module)
        return go

    def rate(st, s):
        out = []
        for s2, q in C.new(en, st, 'Rate', 'new', [U, D], module='rate'):
            out += C.new(en, s2, 'RateLimit', 'new', [s, q])
        return out

    def plain(name, module=None):
        return ctor(name, ['$', F_], module=module)

    # layer type -> (constructor arguments, what it must build)
    MAPS = ('MapRequest', 'MapResponse', 'MapErr', 'MapResult', 'AndThen', 'Then', 'MapFuture')
    BUILDS = {'Timeout': ([D], ctor('Timeout', ['$', D])),
              'LoadShed': ([], ctor('LoadShed', ['$'], module='load_shed')),
              'ConcurrencyLimit': ([U], ctor('ConcurrencyLimit', ['$', U])),
              'RateLimit': ([U, D], rate),
              'Retry': ([POL], ctor('Retry', [POL, '$'], module='retry')),
              'Buffer': ([U], ctor('Buffer', ['$', U], module='buffer')),
              'Filter': ([PRED], ctor('Filter', ['$', PRED])),
              'AsyncFilter': ([PRED], ctor('AsyncFilter', ['$', PRED])),
              'SpawnReady': ([], ctor('SpawnReady', ['$'], module='spawn_ready')),
              'MakeBalance': ([], ctor('MakeBalance', ['$']))}
    BUILDS.update({m: ([F_], plain(m)) for m in MAPS})

    def layer(st, l, s):
        """Layer::layer(&l, s)"""
        o = st.new(l)
        return en.call_trait(st, None, LAYER, 'layer', [('r', o, ()), s])

    def same(what, where, got, want):
        """both sets of outcomes agree"""
        for s, v in list(got) + list(want):
            r.paths += 1
            if s.taint:
                raise Unknown(str(s.taint))
        g, w = {key(s, v) for s, v in got}, {key(s, v) for s, v in want}
        if not w:
            raise Unknown("constructor gives nothing")
        if any('num?' in repr(x) or "'top'" in repr(x) for x in g | w):
            raise Unknown("values")
        if r.need(g == w, 'builds-other', where, "%s builds %s, expected %s" % (what, [short(s, v) for s, v in got][:1], [short(s, v) for s, v in want][:1])):
            return

    def short(st, v):
        return SP.show(SP.nl(st, v))[:300]

    def group(name, f):
        f.__name__ = name
        r.attempt(f)

    # layers
    for name, (args, mk) in BUILDS.items():
        def one(name=name, args=args, mk=mk):
            for s, l in C.new(en, EG.State(), name + 'Layer', 'new', list(args)):
                same(name + 'Layer', name + 'Layer::layer', layer(s.copy(), l, S), mk(s.copy(), S))
                # the same layer applied again, and a clone of it
                for s2, x in layer(s.copy(), l, EG.sym('svc', 'other')):
                    same(name + 'Layer (second use)', name + 'Layer::layer', layer(s2.copy(), l, S), mk(s2.copy(), S))
                from .models import clone_via
                o = s.new(l)
                if en.find_impls('core::clone::Clone', l):
                    for s2, l2 in clone_via(en, s.copy(), l, ('r', o, ())):
                        same(name + 'Layer (clone)', name + 'Layer::clone', layer(s2.copy(), l2, S), mk(s2.copy(), S))
        group(name + 'Layer', one)

    # what a clone of a layer builds shares with what the layer builds whatever two services of one layer share
    def shares(name, args):
        from .models import clone_via
        SA, SB = EG.sym('svc', 'a'), EG.sym('svc', 'b')

        def both(st, l, l2):
            out = []
            for s2, x in layer(st, l, SA):
                out += [(s3, ('t', (x, y))) for s3, y in layer(s2, l2, SB)]
            return out
        for s, l in C.new(en, EG.State(), name, 'new', list(args)):
            if not en.find_impls('core::clone::Clone', l):
                return
            o = s.new(l)
            for s2, l2 in clone_via(en, s.copy(), l, ('r', o, ())):
                want = both(s2.copy(), l, l)
                same(name + ' (services of the layer and of its clone)', name + '::clone', both(s2.copy(), l, l2), want)
                same(name + ' (services of the clone and of the layer)', name + '::clone', both(s2.copy(), l2, l), want)
    for name, (args, mk) in list(BUILDS.items()) + [('GlobalConcurrency', (None, None))]:
        if args is None:
            group('sharing of clones of GlobalConcurrencyLimitLayer', lambda: shares('GlobalConcurrencyLimitLayer', [U]))
        else:
            group('sharing of clones of %sLayer' % name, lambda name=name, args=args: shares(name + 'Layer', args))

    # the `layer` functions of the middleware
    for name in MAPS + ('SpawnReady', 'Filter', 'AsyncFilter'):
        def one(name=name):
            args, mk = BUILDS[name]
            for s, l in C.new(en, EG.State(), name, 'layer', list(args)):
                same(name + '::layer', name + '::layer', layer(s.copy(), l, S), mk(s.copy(), S))
        group(name + '::layer', one)
    for name in ('BoxService', 'UnsyncBoxService', 'BoxCloneService', 'BoxCloneSyncService'):
        def one(name=name):
            mod = 'sync' if name == 'BoxService' else None
            for s, l in C.new(en, EG.State(), name, 'layer', [], mod):
                same(name + '::layer', name + '::layer', layer(s.copy(), l, S), C.new(en, s.copy(), name, 'new', [S], mod))
        group(name + '::layer', one)
    for name, box in (('BoxLayer', 'BoxService'), ('BoxCloneServiceLayer', 'BoxCloneService'), ('BoxCloneSyncServiceLayer', 'BoxCloneSyncService')):
        def one(name=name, box=box):
            def inner(st):
                out = []
                for s2, x in layer(st, A, S):
                    out += C.new(en, s2, box, 'new', [x], 'sync' if box == 'BoxService' else None)
                return out
            for s, l in C.new(en, EG.State(), name, 'new', [A]):
                same(name, name + '::layer', layer(s.copy(), l, S), inner(s.copy()))
                from .models import clone_via
                o = s.new(l)
                for s2, l2 in clone_via(en, s.copy(), l, ('r', o, ())):
                    same(name + ' (clone)', name + '::clone', layer(s2.copy(), l2, S), inner(s2.copy()))
        group(name, one)

    def global_limit():
        sem = None
        for s, l in C.new(en, EG.State(), 'GlobalConcurrencyLimitLayer', 'new', [U]):
            for s2, x in layer(s, l, S):
                # the permit pool of the layer itself
                ls = [v for v in walk(l) if isinstance(v, tuple) and len(v) == 2 and v[0] == 'rc']
                ls = sorted(set(ls))
                r.need(len(ls) == 1 and any(v == ls[0] for v in walk(x)), 'pool', 'GlobalConcurrencyLimitLayer::layer', "the service does not use the permits of its layer", s2)
    group('GlobalConcurrencyLimitLayer', global_limit)

    def nest(st, ls, s):
        """the first of `ls` is the innermost"""
        out = [(st, s)]
        for l in ls:
            out = [q for s2, x in out for q in layer(s2, l, x)]
        return out

    # tower-layer
    def basics():
        st = EG.State()
        ident = C.new(en, st, 'Identity', 'new', [], crate='tower_layer')[0][1]
        same('Identity', 'Identity::layer', layer(st.copy(), ident, S), [(st.copy(), S)])
        for s, l in C.new(en, EG.State(), 'Stack', 'new', [A, B], crate='tower_layer'):
            same('Stack', 'Stack::layer', layer(s.copy(), l, S), nest(s.copy(), [A, B], S))
        ks = [k for k, f in r.F.fns.items() if f["crate"] == 'tower_layer' and f["name"] == 'layer_fn' and not f["impl"]]
        for s, l in call(r, EG.State(), ks[0], [F_]):
            got = layer(s.copy(), l, S)
            same('layer_fn', 'LayerFn::layer', got, [(s.copy(), ('s', ('app', ('fn', 'f'), EG.lv(S))))])
    group('Identity, Stack, LayerFn', basics)

    def tuples():
        n = 0
        for i in r.F.impls:
            if i["trait"] == LAYER and i["selft"][0] == 'tuple' and 'layer' in i["methods"]:
                m = len(i["selft"][1])
                ls = [EG.sym('layer', 't%d' % j) for j in range(m)]
                s = EG.State()
                o = s.new(('t', tuple(ls)))
                got = call(r, s.copy(), i["methods"]['layer'], [('r', o, ()), S])
                same('the tuple of %d layers' % m, 'Layer for %d-tuple' % m, got, nest(s.copy(), list(reversed(ls)), S))
                n += 1
        if not n:
            raise Unknown("no tuple impl found")
    group('tuples', tuples)

    def either():
        for var, l in ((0, A), (1, B)):
            k = C.adt(en, 'Either')
            s = EG.State()
            v = ('a', k, var, (l,))
            same('Either', 'Either::layer', layer(s.copy(), v, S), [(s2, ('a', k, var, (x,))) for s2, x in layer(s.copy(), l, S)])
        ks = [k for k, f in r.F.fns.items() if f["crate"] == 'tower' and f["name"] == 'option_layer' and not f["impl"] and not f["trait"]]
        for s, l in call(r, EG.State(), ks[0], [EG.some(A)]):
            got = layer(s.copy(), l, S)
            same('option_layer(Some)', 'option_layer', got, [(s2, ('a', C.adt(en, 'Either'), 0, (x,))) for s2, x in layer(s.copy(), A, S)])
        for s, l in call(r, EG.State(), ks[0], [EG.NONE]):
            same('option_layer(None)', 'option_layer', layer(s.copy(), l, S), [(s.copy(), ('a', C.adt(en, 'Either'), 1, (S,)))])
    group('Either, option_layer', either)

    # the builder: what is added first is outermost
    bk = C.adt(en, 'ServiceBuilder')
    METHODS = {'buffer': 'Buffer', 'concurrency_limit': 'ConcurrencyLimit', 'load_shed': 'LoadShed', 'rate_limit': 'RateLimit', 'retry': 'Retry', 'timeout': 'Timeout',
               'filter': 'Filter', 'filter_async': 'AsyncFilter', 'map_request': 'MapRequest', 'map_response': 'MapResponse', 'map_err': 'MapErr', 'map_future': 'MapFuture',
               'then': 'Then', 'and_then': 'AndThen', 'map_result': 'MapResult'}

    def bm(st, b, m, *args):
        return C.new(en, st, 'ServiceBuilder', m, ([b] if b is not None else []) + list(args))

    def chain(steps):
        """[(state, builder)] of ServiceBuilder::new().step.step..."""
        out = bm(EG.State(), None, 'new')
        for m, args in steps:
            out = [q for s, b in out for q in bm(s, b, m, *args)]
        return out

    def served(steps, s='$'):
        out = []
        for st, b in chain(steps):
            o = st.new(b)
            out += bm(st, ('r', o, ()), 'service', S)
        return out

    for m, name in METHODS.items():
        def one(m=m, name=name):
            args, mk = BUILDS[name]
            s0 = EG.State
            w = mk(s0(), S)
            same('ServiceBuilder::' + m, 'ServiceBuilder::' + m, served([(m, args)]), w)
            same('layer(A).%s' % m, 'ServiceBuilder::' + m, served([('layer', [A]), (m, args)]), [q for s, x in mk(s0(), S) for q in layer(s, A, x)])
            same('%s.layer(B)' % m, 'ServiceBuilder::' + m, served([(m, args), ('layer', [B])]), [q for s, x in layer(s0(), B, S) for q in mk(s, x)])
        group('ServiceBuilder::' + m, one)

    def order():
        same('layer(A).layer(B)', 'ServiceBuilder::layer', served([('layer', [A]), ('layer', [B])]), nest(EG.State(), [B, A], S))
        for opt, w in ((EG.some(B), 0), (EG.NONE, 1)):
            ek = C.adt(en, 'Either')
            inner = [(s, ('a', ek, w, (x,))) for s, x in (layer(EG.State(), B, S) if w == 0 else [(EG.State(), S)])]
            same('layer(A).option_layer', 'ServiceBuilder::option_layer', served([('layer', [A]), ('option_layer', [opt])]), [q for s, x in inner for q in layer(s, A, x)])
        app = ('s', ('app', ('fn', 'f'), EG.lv(S)))
        same('layer(A).layer_fn', 'ServiceBuilder::layer_fn', served([('layer', [A]), ('layer_fn', [F_])]), layer(EG.State(), A, app))
        # the builder is itself a layer; into_inner yields the layer it stands for
        for s, b in chain([('layer', [A]), ('layer', [B])]):
            same('ServiceBuilder as a layer', 'ServiceBuilder::layer', layer(s.copy(), b, S), nest(s.copy(), [B, A], S))
            for s2, l in bm(s.copy(), b, 'into_inner'):
                same('into_inner', 'ServiceBuilder::into_inner', layer(s2.copy(), l, S), nest(s2.copy(), [B, A], S))
            ks = [k for k, f in r.F.fns.items() if f["crate"] == 'tower' and f["name"] == 'service_fn' and not f["impl"] and not f["trait"]]
            sf = call(r, s.copy(), ks[0], [F_])
            same('service_fn', 'ServiceBuilder::service_fn', bm(s.copy(), b, 'service_fn', F_), [q for s3, x in sf for q in nest(s3, [B, A], x)])
            for m in ('check_clone', 'check_service_clone', 'check_service'):
                same(m, 'ServiceBuilder::' + m, bm(s.copy(), b, m), [(s.copy(), b)])
    group('ServiceBuilder order', order)
    for m, box in (('boxed', 'BoxService'), ('boxed_clone', 'BoxCloneService'), ('boxed_clone_sync', 'BoxCloneSyncService')):
        def one(m=m, box=box):
            mod = 'sync' if box == 'BoxService' else None
            lname = {'boxed': 'BoxLayer', 'boxed_clone': 'BoxCloneServiceLayer', 'boxed_clone_sync': 'BoxCloneSyncServiceLayer'}[m]
            got = served([('layer', [A]), (m, []), ('layer', [B])])
            want = [q for s, x in nest(EG.State(), [B], S) for q in layer(s, A, x)]
            want = [q for s, x in want for q in C.new(en, s, box, 'new', [x], mod)]
            try:
                alt = [q for s, x in layer(EG.State(), B, S) for q in C.new(en, s, box, 'new', [x], mod)]
                alt = [q for s, x in alt for q in layer(s, A, x)]
            except CheckError:
                alt = []
            ks = {key(s, v) for s, v in alt}
            if ks and {key(s, v) for s, v in got} == ks:
                r.n += 1
                return
            same('layer(A).%s().layer(B)' % m, 'ServiceBuilder::' + m, got, want)
        group('ServiceBuilder::' + m, one)

    # the combinators of ServiceExt
    EXT = {m: BUILDS[n] for m, n in METHODS.items() if n in MAPS or n in ('Filter', 'AsyncFilter')}
    EXT.update({'boxed': ([], ctor('BoxService', ['$'], module='sync')), 'boxed_clone': ([], ctor('BoxCloneService', ['$'])),
                'ready_oneshot': ([], ctor('ReadyOneshot', ['$'])),
                'oneshot': ([EG.sym('req', 'r')], ctor('Oneshot', ['$', EG.sym('req', 'r')], module='oneshot')),
                'call_all': ([EG.sym('stream', 'reqs')], ctor('CallAll', ['$', EG.sym('stream', 'reqs')], module='ordered'))})

    for m, (args, mk) in EXT.items():
        def one(m=m, args=args, mk=mk):
            ks = [k for k, f in r.F.fns.items() if f["crate"] == 'tower' and f["name"] == m and f["path"].endswith('ServiceExt::' + m)]
            if not ks:
                raise CheckError('ServiceExt::%s not found' % m)
            s = EG.State()
            same('ServiceExt::' + m, 'ServiceExt::' + m, call(r, s.copy(), ks[0], [S] + list(args)), mk(s.copy(), S))
        group('ServiceExt::' + m, one)
    return r.done()


from . import witness as _W  # noqa: E402

RULES.update(autotraits=_W.autotraits, features=_W.features, nounsafe=_W.nounsafe)


@rule
def error_sources(mirdir, tier):
    """an error type which holds another error answers it as its source"""
    from . import comps as C
    r = R(mirdir, 'error_sources', depth=60)
    en = r.en
    CAUSE = ('s', ('err', 'cause'))

    def dyn(t):
        return 'Error' in repr(t) and 'dyn' in repr(t)

    def holds(key):
        """indices of the fields which hold a boxed error, and how"""
        ad = r.F.adts[key]
        if len(ad["variants"]) != 1:
            raise Unknown("%s has variants" % key)
        fts = r.F.adt_field_types(key, tuple(('param', g[0]) for g in ad["generics"]), 0)
        return [(n, t) for n, t in enumerate(fts) if dyn(t)], len(fts)

    def one(key, i):
        hs, n = holds(key)
        name = key.rsplit('::', 1)[-1]
        if not hs:
            return
        where = "%s::source" % key
        if not r.need('source' in i["methods"], 'source-missing', where, "%s holds the error that caused it but does not answer it as its source" % name):
            return
        made = []
        ks = [k for k in r.F.inherent.get((key, 'new'), ()) if en.C.body(k) and en.C.body(k).argc == 1]
        if ks:
            made = call(r, EG.State(), ks[0], [CAUSE])
        elif len(hs) == 1 and 'Arc' not in repr(hs[0][1]):
            made = [(EG.State(), ('a', key, 0, tuple(CAUSE if k == hs[0][0] else EG.sym('key', 'k%d' % k) for k in range(n))))]
        else:
            raise Unknown("no way to make a %s" % name)
        more = []
        for s, v in made:
            for k in r.F.inherent.get((key, 'clone'), ()):
                s2 = s.copy()
                more += call(r, s2, k, [('r', s2.new(v), ())])
        for s, v in made + more:
            for s2, x in call(r, s, i["methods"]['source'], [('r', s.new(v), ())]):
                if s2.taint:
                    raise Unknown("unmodelled: %s" % (s2.taint,))
                y = None
                if x[0] == 'a' and x[1] == EG.OPT and x[2] == 1:
                    y = x[3][0]
                    while y[0] in ('r', 'b', 'rc'):
                        y = s2.get(*s2.deref(y)) if y[0] != 'rc' else s2.heap[y[1]][3][0]
                    y = EG.lv(y)
                    while isinstance(y, tuple) and len(y) == 2 and y[0] == '*':
                        y = y[1]
                r.need(y == CAUSE[1], 'source', where, "the source of a %s is %s, not the error that caused it" % (name, 'nothing' if y is None else y), s2)

    for i in r.F.impls:
        if i["trait"] and i["trait"].endswith('error::Error') and i["selft"][0] == 'adt' and i["selft"][1] in r.F.adts:
            r.attempt(lambda: one(i["selft"][1], i))
    return r.done()


# ---- the functions and services which implement a trait of the crates through a blanket impl

def blanket(r, trait, method):
    """the impl of `trait` for every type that qualifies"""
    ks = [i["methods"][method] for i in r.F.impls if i["trait"] and i["trait"].rsplit('::', 1)[-1] == trait and i["selft"][0] == 'param' and method in i["methods"]]
    if not ks:
        raise Unknown("no blanket implementation of %s" % trait)
    return ks


def heard(r, kinds):
    def hear(en, st, kind, a):
        if kind in kinds:
            st.g['heard'] = st.g.get('heard', ()) + ((kind,) + tuple(a),)
    r.en.listeners = list(r.en.listeners) + [hear]


def untainted(s):
    if s.taint:
        raise Unknown("unmodelled: %s" % (s.taint,))


def target(st, v):
    while v[0] in ('r', 'b'):
        v = st.get(*st.deref(v))
    return v


@rule
def predicate_fns(mirdir, tier):
    """a closure as a predicate: applied once to the request, its answer is the answer"""
    from . import comps as C
    from . import spec as SP
    r = R(mirdir, 'predicate_fns', depth=60)
    en = r.en
    heard(r, ('fn.call',))
    REQ = ('s', ('req', 'r'))

    def once(where, s):
        untainted(s)
        h = s.g.get('heard', ())
        r.need(len(h) == 1, 'applications', where, "the closure is applied %d times to one request" % len(h), s)
        for e in h:
            r.need(len(e[2]) == 1 and SP.nl(s, e[2][0]) == ('req', 'r'), 'request-changed', where, "the closure is applied to %s" % [SP.show(SP.nl(s, x)) for x in e[2]], s)

    def sync():
        for key in blanket(r, 'Predicate', 'check'):
            n = 0
            st = EG.State()
            o = st.new(C.FN)
            for s, x in call(r, st, key, [('r', o, ()), REQ]):
                n += 1
                once(site(r, key), s)
                a = C.app(('req', 'r'))
                want = (a, ('ok', ('pj', a, 0, 0)), ('err', ('pj', a, 1, 0))) + tuple(SP.both(a))
                r.need(SP.nl(s, x) in want, 'answer', site(r, key), "the closure answers %s, check answers %s" % (SP.show(a), SP.show(SP.nl(s, x))), s)
            if not n:
                raise Unknown("no path returns")

    def asynch():
        for key in blanket(r, 'AsyncPredicate', 'check'):
            n = 0
            st = EG.State()
            o = st.new(C.FN)
            for s, x in call(r, st, key, [('r', o, ()), REQ]):
                f = s.new(x)
                work = [s]
                for turn in range(4):
                    nxt = []
                    for s3 in work:
                        cx = ('r', s3.new(EG.lib('Cx', EG.sym('waker', 'w'))), ())
                        for s4, y in en.call_trait(s3.copy(), None, 'core::future::future::Future', 'poll', [EG.pin(('r', f, ())), cx]):
                            if C.shape(y)[0] == 'P':
                                nxt.append(s4)
                                continue
                            n += 1
                            once(site(r, key), s4)
                            a = C.app(('req', 'r'))
                            want = (('out', a),) + tuple(SP.both(a)) + (('ok', ('okof', a)), ('err', ('errof', a)))
                            r.need(SP.nl(s4, y[3][0]) in want, 'answer', site(r, key), "the future of the closure answers, the predicate answers %s" % SP.show(SP.nl(s4, y[3][0])), s4)
                    work = nxt[:1]
            if not n:
                raise Unknown("never ready")
    r.attempt(sync)
    r.attempt(asynch)
    return r.done()


@rule
def picker_fns(mirdir, tier):
    """a closure as a picker: applied once to the request and the services, its answer is the pick"""
    from . import comps as C
    from . import spec as SP
    r = R(mirdir, 'picker_fns', depth=60)
    heard(r, ('fn.call',))

    def pick():
        for key in blanket(r, 'Picker', 'pick'):
            st = EG.State()
            o, q, v = st.new(C.FN), st.new(('s', ('req', 'r'))), st.new(EG.lib('Vec', C.svc('a'), C.svc('b'), C.svc('c')))
            outs = call(r, st, key, [('r', o, ()), ('r', q, ()), ('r', v, ())])
            if not outs:
                raise Unknown("no path returns")
            for s, x in outs:
                untainted(s)
                h = s.g.get('heard', ())
                if not r.need(len(h) == 1, 'applications', site(r, key), "the closure is applied %d times" % len(h), s):
                    continue
                args = [target(s, y) for y in h[0][2]]
                r.need(args == [('s', ('req', 'r')), EG.lib('Vec', C.svc('a'), C.svc('b'), C.svc('c'))], 'arguments', site(r, key), "the closure is applied to %s" % (args,), s)
                r.need(EG.lv(x) == EG.lv(h[0][3]) if len(h[0]) > 3 else SP.find(SP.nl(s, x), lambda t: isinstance(t, tuple) and t[:1] == ('app',)), 'answer', site(r, key), "the pick is %s, not what the closure answered" % SP.show(SP.nl(s, x)), s)
    r.attempt(pick)
    return r.done()


@rule
def make_traits(mirdir, tier):
    """a service as a maker of services or connections: readiness and requests go through unaltered, once"""
    from . import comps as C
    from . import spec as SP
    r = R(mirdir, 'make_traits', depth=60)
    heard(r, ('svc.ready', 'svc.call'))
    REQ = ('s', ('req', 'r'))

    def group(trait, make):
        def ready():
            for key in blanket(r, trait, 'poll_ready'):
                st = EG.State()
                o = st.new(C.svc())
                cx = ('r', st.new(EG.lib('Cx', EG.sym('waker', 'w'))), ())
                seen = set()
                for s, x in call(r, st, key, [('r', o, ()), cx]):
                    untainted(s)
                    h = s.g.get('heard', ())
                    if not r.need(len(h) == 1 and h[0][0] == 'svc.ready', 'consulted', site(r, key), "one poll_ready reaches the service as %s" % ([e[0] for e in h],), s):
                        continue
                    seen.add(h[0][2])
                    sh, val = C.shape(x)
                    r.need(sh == {'R': 'ok', 'P': 'P', 'F': 'err'}[h[0][2]], 'readiness', site(r, key), "the service answers %s, the maker %s" % (h[0][2], sh), s)
                    if sh == 'err':
                        r.need(SP.nl(s, val) == ('rderr', ('svc', 'in')), 'error', site(r, key), "the readiness error is %s" % SP.show(SP.nl(s, val)), s)
                if seen != {'R', 'P', 'F'}:
                    raise Unknown("answers seen: %s" % sorted(seen))

        def mk():
            for key in blanket(r, trait, make):
                st = EG.State()
                st.ts[('svc', 'in')] = 'R'
                o = st.new(C.svc())
                outs = call(r, st, key, [('r', o, ()), REQ])
                if not outs:
                    raise Unknown("no path returns")
                for s, x in outs:
                    untainted(s)
                    h = s.g.get('heard', ())
                    if not r.need(len(h) == 1 and h[0][0] == 'svc.call', 'dispatched', site(r, key), "one %s reaches the service as %s" % (make, [e[0] for e in h]), s):
                        continue
                    r.need(SP.nl(s, h[0][2]) == ('req', 'r'), 'request-changed', site(r, key), "the service receives %s" % SP.show(SP.nl(s, h[0][2])), s)
                    r.need(SP.nl(s, x) == SP.nl(s, h[0][3]), 'future', site(r, key), "the future answered is %s, not the one of the service" % SP.show(SP.nl(s, x)), s)
        ready.__name__, mk.__name__ = trait + '::poll_ready', trait + '::' + make
        r.attempt(ready)
        r.attempt(mk)
    group('MakeService', 'make_service')
    group('MakeConnection', 'make_connection')
    return r.done()


@rule
def metrics(mirdir, tier):
    """the load metrics are ordered as the loads they stand for"""
    from . import comps as C
    r = R(mirdir, 'metrics', depth=60)
    en = r.en

    ints = (0, 1, 2, 3, 7, 127, 128, 250, 255, 256, 300, 32768, 65535, 65536, 2 ** 31, 2 ** 31 + 1, 2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1)
    floats = (0.0, 1e-9, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 9.0, 999.0, 1e6, 1e6 + 0.5, 2.0 ** 32, 2.0 ** 32 + 1, 1e18, 3e18)

    def one(name, mod, mk, vals):
        pairs = [(a, b) for a in vals for b in vals]

        def ordered():
            k = C.adt(en, name, mod)
            n = 0
            ms = {m: key for i in r.F.impls if (i["trait"] or '').startswith('core::cmp::') and i["selft"][0] == 'adt' and i["selft"][1] == k for m, key in i["methods"].items()}
            for m, key in sorted(ms.items()):
                for a, b in pairs:
                    c = (a > b) - (a < b)
                    o = ('a', EG.ORD, c + 1, ())
                    want = {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'eq': c == 0, 'ne': c != 0, 'cmp': o, 'partial_cmp': EG.some(o)}.get(m)
                    if want is None:
                        continue
                    if isinstance(want, bool):
                        want = EG.TRUE if want else EG.FALSE
                    st = EG.State()
                    x, y = st.new(('a', k, 0, (mk(a),))), st.new(('a', k, 0, (mk(b),)))
                    for s, v in call(r, st, key, [('r', x, ()), ('r', y, ())]):
                        untainted(s)
                        if v[0] not in ('i', 'a'):
                            raise Unknown("%s answers %s" % (m, v))
                        n += 1
                        r.need(v == want, 'order', site(r, key), "%s of a load of %s and one of %s is wrong" % (m, a, b), s)
            if not n:
                raise Unknown("nothing compared")
        ordered.__name__ = name
        r.attempt(ordered)
    one('Count', 'pending_requests', EG.I, ints)
    one('Cost', 'peak_ewma', lambda x: ('f', x), floats)
    return r.done()
