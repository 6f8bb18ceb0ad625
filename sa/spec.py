"""Behavioural specifications evaluated on every analysed operation.

Results are symbolic: `('out', F)` is whatever inner future F resolved to, so a
returned value names where it came from (which inner call, for which request)
and what was applied to it.  A specification compares that provenance with the
one the public documentation promises.
"""
from .engine import OPT, RES, POLL, PIN, UNIT
from .mgc import Comp, shape


def nl(st, x):
    """normal form of a value / label: boxes and wrappers removed, projections of a resolved future named"""
    if type(x) is not tuple or not x:
        return x
    h = x[0]
    if h == 's' and len(x) == 2 and type(x[1]) is tuple:
        return nl(st, x[1])
    if h == 'b' and len(x) == 2 and type(x[1]) is int:
        if x[1] in st.heap:
            return nl(st, st.heap[x[1]])
        return x
    if h == 'rc' and len(x) == 2 and type(x[1]) is int:
        return nl(st, st.heap[x[1]][3][0]) if x[1] in st.heap else x
    if h == 'a' and len(x) == 4:
        if x[1] == RES:
            return (('ok', 'err')[x[2]], nl(st, x[3][0]))
        if x[1] == OPT:
            return ('some', nl(st, x[3][0])) if x[2] == 1 else ('none',)
        if x[1] == PIN:
            return nl(st, x[3][0])
        if x[1] == 'lib:Tracked':
            return ('tracked', nl(st, x[3][0]), nl(st, x[3][1]))
        return ('adt', x[1].rsplit('::', 1)[-1], x[2]) + tuple(nl(st, y) for y in x[3])
    if h == 'pj' and len(x) == 4 and type(x[1]) is tuple and x[1] and x[1][0] == 'out' and x[3] == 0:
        return (('okof', 'errof')[x[2]] if x[2] in (0, 1) else 'pj', nl(st, x[1][1]))
    return tuple(nl(st, y) for y in x)


def alts(st, v):
    """a returned Result as the set of outcomes it may be: ('ok', X) | ('err', X) | ('res', X)"""
    n = nl(st, v)
    if type(n) is tuple and n and n[0] in ('ok', 'err') and len(n) == 2:
        return (n,)
    if type(n) is tuple and n and n[0] == 'out' and len(n) == 2:
        return (('ok', ('okof', n[1])), ('err', ('errof', n[1])))
    return (('res', n),)


def both(F):
    return (('ok', ('okof', F)), ('err', ('errof', F)))


def find(x, pred):
    """all sub-labels satisfying pred"""
    out = []
    if type(x) is tuple:
        if pred(x):
            out.append(x)
        for y in x:
            out += find(y, pred)
    elif type(x) is frozenset:
        for y in x:
            out += find(y, pred)
    return out


def show(x):
    """readable rendering of a normalised label"""
    if type(x) is tuple and x:
        h = x[0]
        if h in ('ok', 'err', 'some', 'okof', 'errof', 'out') and len(x) == 2:
            return '%s(%s)' % ({'okof': 'response of', 'errof': 'error of', 'out': 'result of'}.get(h, h.capitalize()), show(x[1]))
        if h == 'fut' and len(x) == 4:
            return '%s.call(%s)' % (show(x[1]), show(x[2]))
        if h == 'svc':
            return 'svc:%s' % x[1] if len(x) > 1 else 'svc'
        if h == 'req':
            return 'request'
        if h == 'app':
            return '%s(%s)' % (show(x[1]), ', '.join(show(y) for y in x[2:]))
        if h in ('fn', 'pred'):
            return str(x[1])
        if h == 'rderr':
            return 'readiness error of %s' % show(x[1])
        if h == 'adt':
            return '%s' % x[1]
        return '(' + ', '.join(show(y) for y in x) + ')'
    return str(x)


WRAPEV = {'svc.ready', 'svc.call', 'fut.poll', 'fn.call', 'trait.call', 'sleep.poll', 'sleep.new'}


class Wrap(Comp):
    """one request to the wrapper is one request to the wrapped service"""
    prop = 'C07'
    track = WRAPEV
    eager = True          # the inner service is called by `call` itself

    # what the documentation promises
    def rq(self, r):
        return r

    def rerr(self, e):
        return e

    def outs(self, F):
        return both(F)

    def bad(self, en, st, kind, what, k):
        en.violate(st, self.prop, kind, what, '%s::%s' % (self.name, k))

    def oblige(self, en, k):
        en.count("obligations", k)

    # a small monitor: one value per live handle / response future
    def mon(self, st, sid, default=None):
        for k, v in st.g.get('mon', ()):
            if k == sid:
                return v
        return default

    def setmon(self, st, sid, val):
        st.g['mon'] = tuple((k, v) for k, v in st.g.get('mon', ()) if k != sid) + ((sid, val),)

    def inner_of(self, st, slot):
        """labels of the inner services a handle reaches"""
        seen, out = set(), []

        def go(v):
            if type(v) is not tuple or not v:
                return
            if v[0] == 's' and len(v) == 2 and type(v[1]) is tuple and v[1] and v[1][0] == 'svc':
                if v[1] not in out:
                    out.append(v[1])
                return
            if v[0] in ('b', 'rc') and len(v) == 2 and type(v[1]) is int:
                if v[1] not in seen and v[1] in st.heap:
                    seen.add(v[1])
                    go(st.heap[v[1]])
                return
            for x in v:
                go(x)
        if slot[1][1] in st.heap:
            go(st.heap[slot[1][1]])
        return out

    def evs(self, st, *kinds):
        return [e for e in st.g.get('op', ()) if e[0] in kinds]

    def before(self, en, st, op):
        if op[0] == 'call':
            # readiness of the inner services of the handle that is called
            st.g['pre'] = tuple(sorted(st.ts.get(L, 'N') for L in self.inner_of(st, st.g['w'][op[1]])))

    def after(self, en, st, op, slot, res):
        k = op[0]
        f = getattr(self, 'spec_' + k, None)
        if f is not None:
            self.oblige(en, k)
            f(en, st, slot, res)

    def spec_poll_ready(self, en, st, slot, res):
        sh, val = shape(res)
        ev = self.evs(st, 'svc.ready')
        if self.evs(st, 'svc.call'):
            self.bad(en, st, 'call-from-poll_ready', 'poll_ready dispatched a request', 'poll_ready')
        if not ev:
            if sh in ('ok', 'err'):
                self.bad(en, st, 'readiness-without-asking', 'poll_ready returned %s without polling the inner service' % sh, 'poll_ready')
            return
        last = ev[-1]
        want = {'P': 'P', 'R': 'ok', 'F': 'err'}[last[2]]
        if sh != want:
            self.bad(en, st, 'readiness-mismatch', 'inner poll_ready answered %s but poll_ready returned %s' % (last[2], sh), 'poll_ready')
        elif sh == 'err':
            e = self.rerr(('rderr', nl(st, last[1])))
            if nl(st, val) != e:
                self.bad(en, st, 'readiness-error-changed', 'inner error %s surfaced as %s' % (show(e), show(nl(st, val))), 'poll_ready')

    def spec_call(self, en, st, slot, res):
        ev = self.evs(st, 'svc.call')
        n, rq = st.g['newreq']
        if self.eager and len(ev) != 1:
            self.bad(en, st, 'not-exactly-one-call', 'call dispatched %d requests to the inner service' % len(ev), 'call')
        for e in ev:
            if nl(st, e[2]) != nl(st, self.rq(rq)):
                self.bad(en, st, 'request-changed', 'the inner service received %s instead of %s' % (show(nl(st, e[2])), show(nl(st, self.rq(rq)))), 'call')

    def spec_poll(self, en, st, slot, res):
        if self.eager and self.evs(st, 'svc.call'):
            self.bad(en, st, 'second-call', 'polling the response future dispatched a request', 'poll')
        sh, val = shape(res)
        if sh == 'P':
            return
        rq = nl(st, self.rq(slot[5][1]))
        v = res[3][0]
        n = nl(st, v)
        fs = find(n, lambda x: len(x) == 4 and x[0] == 'fut' and nl(st, x[2]) == rq)
        self.result(en, st, slot, v, fs[0] if fs else None)

    def result(self, en, st, slot, v, F):
        if F is None:
            self.bad(en, st, 'response-of-nothing', 'the response %s does not come from the inner call made for this request' % show(nl(st, v)), 'poll')
            return
        want = self.outs(F)
        for a in alts(st, v):
            if a not in want:
                self.bad(en, st, 'response-changed', 'the response is %s, expected %s' % (show(a), ' or '.join(show(w) for w in want)), 'poll')


def err_is(v, name):
    """normalised Err(name { .. })"""
    return type(v) is tuple and len(v) == 2 and v[0] == 'err' and type(v[1]) is tuple and v[1][:2] == ('adt', name)


F_ = ('fn', 'f')


def app(*x):
    return ('app', F_) + x
