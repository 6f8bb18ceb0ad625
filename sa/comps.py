"""The components: how each public object is built, and its client."""
from .engine import (canon, State, UNIT, TOP, UNDEF, I, TRUE, FALSE, OPT, RES, POLL, PIN, ARC, BOX, lib, sym, lv, pin, NONE, some, ok, err, ready, CheckError)
from .mgc import Comp, SVC, FUT, STREAM
from .spec import Wrap, app, both, nl, alts, show, find, shape, F_, err_is

REG = {}


def adt(en, name, module=None, crate='tower'):
    ks = en.F.find_adt(name, crate, module)
    if not ks:
        raise CheckError('public type %s not found' % name)
    if len(ks) > 1:
        pub = [k for k in ks if en.F.adts[k]["vis"] == 'pub']
        if len(pub) == 1:
            return pub[0]
        raise CheckError('type name %s is ambiguous: %s' % (name, ks))
    return ks[0]


def new(en, st, name, method, args, module=None, crate='tower'):
    k = adt(en, name, module, crate)
    keys = en.F.inherent.get((k, method))
    if not keys:
        raise CheckError('public constructor %s::%s not found' % (name, method))
    if len(keys) > 1:
        keys = sorted(keys, key=lambda x: (en.C.body(x).argc != len(args), x))
    b = en.C.body(keys[0])
    if b.argc != len(args):
        raise CheckError('public constructor %s::%s takes %d arguments' % (name, method, b.argc))
    return en.run_body(st, b, args)


def via(en, st, trait, method, key, args):
    """run the trait method which type `key` implements"""
    for i in en.F.impls:
        if i["trait"] and i["trait"].rsplit('::', 1)[-1] == trait and i["selft"][0] == 'adt' and i["selft"][1] == key and method in i["methods"]:
            return en.run_body(st, en.C.body(i["methods"][method]), args)
    raise CheckError('%s does not implement %s' % (key, trait))


def free_fn(en, st, path, args, crate='tower'):
    for k, f in en.F.fns.items():
        if f["crate"] == crate and f["name"] == path and not f["impl"] and not f["trait"] and f["closure"] is None:
            return en.run_body(st, en.C.body(k), args)
    raise CheckError('public function %s not found' % path)


def svc(n='in'):
    return sym('svc', n)


def simple(name, tname, args, method='new', module=None, **kw):
    class C(Comp):
        pass
    C.name = name
    for k, v in kw.items():
        setattr(C, k, v)

    def build(self, en, st):
        return new(en, st, tname, method, args() if callable(args) else args, module)
    C.build = build
    C.__name__ = name
    REG[name] = C
    return C


def comp(c):
    REG[c.name] = c
    return c


def two(**kw):
    d = dict(clone=True, handles=2, futs=1)
    d.update(kw)
    return d


def wrap(name, tname, args, method='new', module=None, base=Wrap, **kw):
    def mk(C):
        d = dict(kw)
        d.update({k: v for k, v in C.__dict__.items() if not k.startswith('__')})
        d['name'] = name
        C2 = type(name, (base,), d)

        def build(self, en, st):
            return new(en, st, tname, method, args() if callable(args) else args, module)
        if 'build' not in d:
            C2.build = build
        REG[name] = C2
        return C2
    return mk


def plain(name, tname, args, **kw):
    class C:
        pass
    return wrap(name, tname, args, **kw)(C)


def layered(en, st, lname, largs, svcs, method='new', module=None, wants=()):
    """build one layer and apply it to each of the services"""
    out = []
    for s, l in new(en, st, lname, method, largs, module):
        o = s.new(l)
        acc = [(s, [])]
        for x in svcs:
            acc = [(s3, vs + [('svc', v)]) for s2, vs in acc for s3, v in en.call_trait(s2, None, 'tower_layer::Layer', 'layer', [('r', o, ()), x])]
        out += acc
    return out


FN = sym('fn', 'f')


@wrap('MapRequest', 'MapRequest', [svc(), FN], **two())
class _:
    def rq(self, r):
        return app(r)


@wrap('MapResponse', 'MapResponse', [svc(), FN], **two())
class _:
    def outs(self, F):
        return (('ok', app(('okof', F))), ('err', ('errof', F)))


@wrap('MapErr', 'MapErr', [svc(), FN], **two())
class _:
    def rerr(self, e):
        return app(e)

    def outs(self, F):
        return (('ok', ('okof', F)), ('err', app(('errof', F))))


@wrap('MapResult', 'MapResult', [svc(), FN], **two())
class _:
    def outs(self, F):
        return tuple(('res', app(x)) for x in both(F) + (('out', F),))


@wrap('AndThen', 'AndThen', [svc(), FN], **two())
class _:
    def outs(self, F):
        return (('err', ('errof', F)),) + both(app(('okof', F)))


@wrap('Then', 'Then', [svc(), FN], **two())
class _:
    def outs(self, F):
        return tuple(y for x in both(F) + (('out', F),) for y in both(app(x)))


@wrap('MapFuture', 'MapFuture', [svc(), FN], **two())
class _:
    def outs(self, F):
        return both(app(F))


@wrap('Timeout', 'Timeout', [svc(), sym('dur', 'timeout')], **two())
class _:
    prop = 'C14'

    def spec_call(self, en, st, slot, res):
        Wrap.spec_call(self, en, st, slot, res)
        ev = self.evs(st, 'sleep.new')
        if len(ev) != 1:
            self.bad(en, st, 'not-one-timer', 'call armed %d timers' % len(ev), 'call')
        for e in ev:
            d = nl(st, e[1])
            if not (d[0] == 'add' and d[1][0] == 'now' and d[2] == ('dur', 'timeout')):
                self.bad(en, st, 'wrong-deadline', 'the timer is set to %s instead of now + the configured timeout' % show(d), 'call')

    def spec_poll(self, en, st, slot, res):
        sh, val = shape(res)
        f = [e for e in self.evs(st, 'fut.poll')]
        t = self.evs(st, 'sleep.poll')
        fr = [e for e in f if e[2] == 'R']
        if not f:
            self.bad(en, st, 'response-not-polled', 'the response future of the inner service was not polled first', 'poll')
        if sh == 'err' and err_is(nl(st, res[3][0]), 'Elapsed'):
            if fr:
                self.bad(en, st, 'response-lost', 'the request failed with Elapsed although its response was available', 'poll')
            if not any(e[2] == 'R' for e in t):
                self.bad(en, st, 'early-timeout', 'the request failed with Elapsed although the timer had not fired', 'poll')
            return
        if sh == 'P':
            if any(e[2] == 'R' for e in t):
                self.bad(en, st, 'timeout-ignored', 'the timer fired and the inner response was not available, but the request stays pending', 'poll')
            if not t:
                self.bad(en, st, 'timer-not-polled', 'the request stays pending without its timer having been polled', 'poll')
            return
        Wrap.spec_poll(self, en, st, slot, res)


@wrap('LoadShed', 'LoadShed', [svc()], module='load_shed', **two())
class _:
    prop = 'C13'
    call_any = True

    def can_call(self, en, st, slot):
        return slot[2] != 'F'

    def after(self, en, st, op, slot, res):
        Wrap.after(self, en, st, op, slot, res)
        d = dict(st.g.get('mon', ()))
        keys = [k for s in st.g['w'] for k in (s[3], ('last', s[3]))]
        st.g['mon'] = tuple((k, d[k]) for k in keys if d.get(k) is not None)

    def spec_poll_ready(self, en, st, slot, res):
        sh, val = shape(res)
        ev = self.evs(st, 'svc.ready')
        self.setmon(st, ('last', slot[3]), ev[-1][2] if ev else None)
        if sh == 'P':
            self.bad(en, st, 'not-always-ready', 'poll_ready returned Pending', 'poll_ready')
        elif ev and ev[-1][2] == 'F':
            if sh != 'err' or nl(st, val) != ('rderr', nl(st, ev[-1][1])):
                self.bad(en, st, 'error-hidden', 'the inner service failed but poll_ready did not report its error', 'poll_ready')
        elif sh == 'err':
            self.bad(en, st, 'spurious-error', 'poll_ready failed although the inner service did not', 'poll_ready')
        elif not ev:
            self.bad(en, st, 'stale-readiness', 'poll_ready did not ask the inner service', 'poll_ready')

    def spec_call(self, en, st, slot, res):
        was = (self.mon(st, ('last', slot[3])),)
        self.setmon(st, ('last', slot[3]), None)
        ev = self.evs(st, 'svc.call')
        if ev:
            Wrap.spec_call(self, en, st, slot, res)
        if not ev and 'R' in was:
            self.bad(en, st, 'shed-although-ready', 'the request was shed although the inner service was ready', 'call')
        if ev and 'R' not in was:
            self.bad(en, st, 'called-although-not-ready', 'the request was dispatched although the inner service was not ready', 'call')
        self.setmon(st, st.g['newreq'][0], 'sent' if ev else 'shed')

    def spec_poll(self, en, st, slot, res):
        if self.mon(st, slot[3]) == 'shed':
            if self.evs(st, 'svc.call', 'fut.poll'):
                self.bad(en, st, 'shed-request-dispatched', 'a shed request reached the inner service', 'poll')
            if not err_is(nl(st, res)[-1] if shape(res)[0] == 'P' else nl(st, res[3][0]), 'Overloaded'):
                self.bad(en, st, 'shed-not-overloaded', 'a shed request did not fail with Overloaded at once', 'poll')
            return
        Wrap.spec_poll(self, en, st, slot, res)


def checked(r, a='Predicate'):
    return ('m', a, 'check', ('pred', 'f'), r)


@wrap('Filter', 'Filter', [svc(), sym('pred', 'f')], **two())
class _:
    prop = 'C24'

    def rq(self, r):
        return ('pj', checked(r), 0, 0)

    def spec_call(self, en, st, slot, res):
        ck = self.evs(st, 'trait.call')
        ev = self.evs(st, 'svc.call')
        rq = nl(st, st.g['newreq'][1])
        if len(ck) != 1 or nl(st, ck[0][4][0]) != rq:
            self.bad(en, st, 'not-checked-once', 'the predicate was asked %d times about the request' % len(ck), 'call')
        if ev:
            Wrap.spec_call(self, en, st, slot, res)
        self.setmon(st, st.g['newreq'][0], 'sent' if ev else 'rejected')

    def spec_poll(self, en, st, slot, res):
        sh, val = shape(res)
        if self.mon(st, slot[3]) != 'rejected':
            return Wrap.spec_poll(self, en, st, slot, res)
        if self.evs(st, 'svc.call'):
            self.bad(en, st, 'rejected-request-dispatched', 'a rejected request reached the inner service', 'poll')
        want = ('pj', checked(nl(st, slot[5][1])), 1, 0)
        if sh != 'err' or nl(st, val) != want:
            self.bad(en, st, 'rejection-lost', 'a request not passed on did not fail with the error of the predicate', 'poll')


@wrap('AsyncFilter', 'AsyncFilter', [svc(), sym('pred', 'f')], **two())
class _:
    prop = 'C24'
    eager = False

    def rq(self, r):
        return ('okof', checked(r, 'AsyncPredicate'))

    def spec_call(self, en, st, slot, res):
        ck = [e for e in self.evs(st, 'trait.call') if e[1] == 'AsyncPredicate']
        rq = nl(st, st.g['newreq'][1])
        if len(ck) != 1 or nl(st, ck[0][4][0]) != rq:
            self.bad(en, st, 'not-checked-once', 'the predicate was asked %d times about the request' % len(ck), 'call')
        Wrap.spec_call(self, en, st, slot, res)

    def spec_poll(self, en, st, slot, res):
        sh, val = shape(res)
        want = self.rq(nl(st, slot[5][1]))
        ev = self.evs(st, 'svc.call')
        for e in ev:
            if nl(st, e[2]) != want:
                self.bad(en, st, 'request-changed', 'the inner service received %s instead of the request the predicate returned' % show(nl(st, e[2])), 'poll')
        if len(ev) > 1:
            self.bad(en, st, 'not-exactly-one-call', 'one request was dispatched %d times' % len(ev), 'poll')
        if ev:
            if self.mon(st, slot[3]) == 'sent':
                self.bad(en, st, 'not-exactly-one-call', 'one request was dispatched twice', 'poll')
            self.setmon(st, slot[3], 'sent')
        if sh in ('ok', 'err', 'R') and self.mon(st, slot[3]) != 'sent':
            if sh != 'err' or nl(st, val) != ('errof', checked(nl(st, slot[5][1]), 'AsyncPredicate')):
                self.bad(en, st, 'rejection-lost', 'a request not passed on did not fail with the error of the predicate', 'poll')
            return
        Wrap.spec_poll(self, en, st, slot, res)


class Limited(Wrap):
    """outstanding permits are counted from the semaphore's events"""
    prop = 'C11'
    OUT = ('outstanding',)

    def event(self, en, st, kind, a):
        if kind in ('permit.acquire', 'permit.release', 'sem.add_permits'):
            n = self.mon(st, self.OUT, 0)
            n += 1 if kind == 'permit.acquire' else -(a[1] if len(a) > 1 and type(a[1]) is int else 1)
            self.setmon(st, self.OUT, n)

    def walk(self, st, pred):
        """library objects reachable from the live handles and futures"""
        seen, out = set(), []

        def go(v):
            if type(v) is not tuple or not v:
                return
            if v[0] in ('b', 'rc', 'r') and len(v) >= 2 and type(v[1]) is int:
                if v[1] not in seen and v[1] in st.heap:
                    seen.add(v[1])
                    go(st.heap[v[1]])
                return
            if v[0] == 'a' and len(v) == 4 and pred(v):
                out.append(v)
            for x in v:
                if type(x) is tuple:
                    go(x)
        for sl in st.g['w']:
            go(sl[1])
        return out

    def after(self, en, st, op, slot, res):
        Wrap.after(self, en, st, op, slot, res)
        w = st.g['w']
        n = self.mon(st, self.OUT, 0)
        fly = sum(1 for s in w if s[0] == 'fut')
        may = sum(1 for s in w if s[0] == 'svc' and s[2] != 'N')
        must = sum(1 for s in w if s[0] == 'svc' and s[2] == 'R')
        self.oblige(en, 'permit balance')
        if n < fly:
            self.bad(en, st, 'request-without-permit', '%d requests in flight but %d permits taken' % (fly, n), op[0])
        elif n < fly + must:
            self.bad(en, st, 'ready-without-permit', '%d requests in flight and %d ready handles, but %d permits taken' % (fly, must, n), op[0])
        elif n > fly + may:
            self.bad(en, st, 'permit-leaked', '%d permits taken by %d requests in flight and %d waiting handles' % (n, fly, may), op[0])
        ss = {v[3][1]: v[3][0] for v in self.walk(st, lambda v: v[1] == 'lib:Sem')}
        if len(ss) > 1:
            self.bad(en, st, 'separate-limits', 'handles which share a limit use %d semaphores' % len(ss), op[0])
        for x in ss.values():
            if nl(st, x) != ('u', 'max'):
                self.bad(en, st, 'wrong-limit', 'the limit is %s instead of the configured one' % show(nl(st, x)), op[0])

    track = Wrap.track | {'permit.pending'}

    def spec_poll_ready(self, en, st, slot, res):
        sh, val = shape(res)
        if sh != 'P' or not self.evs(st, 'permit.pending'):
            Wrap.spec_poll_ready(self, en, st, slot, res)


@wrap('ConcurrencyLimit', 'ConcurrencyLimit', [svc(), sym('u', 'max')], base=Limited, cost=20, passes_load=True, **two(futs=2))
class _:
    pass


@comp
class GlobalConcurrencyLimit(Limited):
    """two services built by one global layer share its limit"""
    name = 'GlobalConcurrencyLimit'
    inner = ('s0', 's1')
    passes_load = True
    handles = 2
    futs = 1
    cost = 10

    def build(self, en, st):
        return layered(en, st, 'GlobalConcurrencyLimitLayer', [sym('u', 'max')], [svc('s0'), svc('s1')])


@comp
class ConcurrencyLimitLayered(Limited):
    name = 'ConcurrencyLimitLayered'

    def build(self, en, st):
        return layered(en, st, 'ConcurrencyLimitLayer', [sym('u', 'max')], [svc()])
plain('Optional', 'Optional', [some(svc())], futs=1)
@wrap('OptionalNone', 'Optional', [NONE], futs=1)
class _:
    def spec_poll_ready(self, en, st, slot, res):
        if shape(res)[0] != 'ok':
            self.bad(en, st, 'not-ready', 'an empty Optional is not ready', 'poll_ready')

    def spec_call(self, en, st, slot, res):
        pass

    def spec_poll(self, en, st, slot, res):
        if shape(res)[0] != 'err' or not err_is(nl(st, res[3][0]), 'None'):
            self.bad(en, st, 'not-none-error', 'a request to an empty Optional did not fail with its error at once', 'poll')


plain('BoxService', 'BoxService', [svc()], module='sync')
plain('UnsyncBoxService', 'UnsyncBoxService', [svc()])
plain('BoxCloneService', 'BoxCloneService', [svc()], **two())
plain('BoxCloneSyncService', 'BoxCloneSyncService', [svc()], **two())
@wrap('FutureService', 'FutureService', [sym('ufut', 'f')], module='future_service')
class _:
    prop = 'C22'

    def spec_poll_ready(self, en, st, slot, res):
        sh, val = shape(res)
        f = [e for e in self.evs(st, 'fut.poll') if e[1] == ('ufut', 'f')]
        if f and f[-1][2] == 'P' and sh != 'P':
            self.bad(en, st, 'ready-before-service', 'the service does not exist yet but poll_ready returned %s' % sh, 'poll_ready')
        if f and f[-1][2] == 'R' and not self.evs(st, 'svc.ready'):
            if sh != 'err' or nl(st, val) != ('errof', ('ufut', 'f')):
                self.bad(en, st, 'future-error-lost', 'the error of the future was not returned', 'poll_ready')
            return
        if f and f[-1][2] == 'P':
            return
        Wrap.spec_poll_ready(self, en, st, slot, res)

    def spec_call(self, en, st, slot, res):
        Wrap.spec_call(self, en, st, slot, res)
        for e in self.evs(st, 'svc.call'):
            if nl(st, e[1]) != ('okof', ('ufut', 'f')):
                self.bad(en, st, 'wrong-service', 'the request went to %s' % show(nl(st, e[1])), 'call')


class Loaded(Wrap):
    """a service with a load: what `Load::load` answers after every operation"""
    prop = 'C20'
    load_of = None

    def load(self, en, st):
        """[(state, answer)] of one evaluation of the load of the service held"""
        w = [s for s in st.g['w'] if s[0] == 'svc']
        if not w:
            return None
        s = st.copy()
        en.mute += 1
        try:
            s.g['mute'] = 1
            return via(en, s, 'Load', 'load', adt(en, self.load_of or self.name), [w[0][1]])
        finally:
            en.mute -= 1

    def result(self, en, st, slot, v, F):
        Wrap.result(self, en, st, slot, v, F)
        if F is not None and shape(ready(v))[0] != 'ok':
            self.setmon(st, slot[3], 'failed')

    def live(self, st):
        """(requests still in flight, futures which failed and are still held)"""
        fs = [s for s in st.g['w'] if s[0] == 'fut']
        n = sum(1 for s in fs if s[2] != 'D')
        return n, sum(1 for s in fs if s[2] == 'D')

    def after(self, en, st, op, slot, res):
        Wrap.after(self, en, st, op, slot, res)
        r = self.load(en, st)
        if r is None or st.taint is not None:
            return
        self.oblige(en, 'load')
        if not r:
            self.bad(en, st, 'no-load', 'the load cannot be evaluated', 'load')
        for s, v in r:
            if s.taint is None:
                self.spec_load(en, st, v, op, res)


@wrap('Constant', 'Constant', [svc(), sym('load', 'm')], base=Loaded)
class _:
    def spec_load(self, en, st, v, op, res):
        if lv(v) not in (('load', 'm'), ('m', 'Clone', 'clone', ('load', 'm'))):
            self.bad(en, st, 'wrong-load', 'the load is %s, not the constant given' % show(lv(v)), 'load')


class Pending(Loaded):
    load_of = 'PendingRequests'

    def held(self, st, op, res):
        return 0

    def spec_load(self, en, st, v, op, res):
        if v[0] != 'a' or len(v[3]) != 1 or v[3][0][0] != 'i':
            return
        got = v[3][0][1]
        n, d = self.live(st)
        lo = n + self.held(st, op, res)
        # a future which resolved to an error and is still held may count
        if not lo <= got <= lo + d:
            self.bad(en, st, 'wrong-load', 'the load is %d with %d requests pending' % (got, lo), op[0])


plain('PendingRequests', 'PendingRequests', [svc(), ('a', 'tower::load::completion::CompleteOnResponse', 0, ())], futs=2, base=Pending)


@wrap('PendingRequestsHeld', 'PendingRequests', [svc(), ('a', 'tower::load::completion::CompleteOnResponse', 0, ())], futs=2, base=Pending, auto_drop=False)
class _:
    """completed response futures are kept around"""

    def live(self, st):
        n, d = Pending.live(self, st)
        return n, sum(1 for s in st.g['w'] if s[0] == 'fut' and s[2] == 'D' and self.mon(st, s[3]) == 'failed')


@wrap('PendingRequestsTracked', 'PendingRequests', [svc(), sym('completion', 'c')], futs=2, base=Pending)
class _:
    """a completion of the user's which keeps the handle in the response"""
    track = Wrap.track | {'track'}

    def outs(self, F):
        return (('ok', ('tracked', ('completion', 'c'), ('okof', F))), ('err', ('errof', F)))

    def spec_poll(self, en, st, slot, res):
        ev = self.evs(st, 'track')
        sh, v = shape(res)
        if len(ev) != (1 if sh in ('ok', 'R') and not (sh == 'R' and alts(st, v)[0][0] == 'err') else 0) and sh != '?':
            self.bad(en, st, 'completion-not-tracked', 'the completion was consulted %d times for a response future answering %s' % (len(ev), sh), 'poll')
        Wrap.spec_poll(self, en, st, slot, res)

    def held(self, st, op, res):
        return len(self.evs(st, 'track')) if op[0] == 'poll' else 0


plain('PeakEwma', 'PeakEwma', [svc(), sym('dur', 'rtt'), sym('u', 'decay'), ('a', 'tower::load::completion::CompleteOnResponse', 0, ())])
@wrap('SpawnReady', 'SpawnReady', [svc()], module='spawn_ready')
class _:
    prop = 'C22'
    track = Wrap.track | {'spawn', 'abort', 'detach'}

    def live(self, st):
        return [t for t in st.g.get('tasks', ()) if t[1] in st.heap and st.heap[t[1]][3][1] == I(0)]

    def extra_ops(self, en, st):
        # the task may be lost: it panics, or its runtime shuts down
        return [('kill', 't')] if self.live(st) else []

    def apply(self, en, st, op):
        t = self.live(st)[0][1]
        outs = en.drop_at(st, t, (0,))
        for s in outs:
            h = s.heap[t]
            s.heap[t] = ('a', h[1], 0, (UNDEF, I(2), UNIT))
        return [(s, UNIT) for s in outs]

    def spec_poll_ready(self, en, st, slot, res):
        sh, val = shape(res)
        ev = self.evs(st, 'svc.ready')
        n = len(self.live(st))
        if n > 1:
            self.bad(en, st, 'two-tasks', 'two background tasks drive the same service', 'poll_ready')
        if sh == 'P' and n != 1:
            self.bad(en, st, 'not-driven', 'pending although no background task drives the service to readiness', 'poll_ready')
        if sh == 'ok' and not any(st.ts.get(L) == 'R' for L in self.inner_of(st, slot)):
            self.bad(en, st, 'readiness-without-asking', 'ready although the service held is not', 'poll_ready')
        if ev and ev[-1][2] == 'F' and not self.evs(st, 'spawn'):
            if sh != 'err' or nl(st, val) != ('rderr', nl(st, ev[-1][1])):
                self.bad(en, st, 'readiness-error-changed', 'the readiness error of the service was not returned', 'poll_ready')
        if sh == 'err':
            v = nl(st, val)
            if v[0] != 'JoinError' and v != ('rderr', ('svc', 'in')):
                self.bad(en, st, 'readiness-error-changed', 'poll_ready failed with %s' % show(v), 'poll_ready')

    def spec_drop(self, en, st, slot, res):
        if slot[0] == 'svc' and self.live(st):
            self.bad(en, st, 'task-outlives-service', 'the background task keeps running after the service was dropped', 'drop')
        if self.evs(st, 'detach') and self.live(st):
            self.bad(en, st, 'task-outlives-service', 'the background task was detached', 'drop')
class ReconnectBase(Wrap):
    """automaton per handle: idle -> connecting F -> connected L -> idle ...; failed F keeps a connect error"""
    prop = 'C23'
    track = {'svc.call', 'fut.poll'}
    poll_after_err = True
    MK = ('svc', 'mk')
    start = ('idle', None)

    def keep(self, st, kind, a):
        # connecting may take any number of rounds within one poll
        return a[0] != self.MK and not (a[0][0] == 'fut' and a[0][1] == self.MK)

    def phase(self, st, sid):
        ph, X = self.mon(st, sid) or self.start
        if ph == 'made':
            # how the attempt ended, once the code has looked
            v = st.facts.get(('var', ('out', X)))
            if v == 0:
                return ('connected', ('pj', ('out', X), 0, 0))
            if v == 1:
                return ('failed', X)
        return ph, X

    def event(self, en, st, kind, a):
        if kind not in ('svc.ready', 'svc.call', 'fut.poll'):
            return
        who = st.g.get('who')
        if not any(s[3] == who and s[0] == 'svc' for s in st.g.get('w', ())) and 'newreq' not in st.g:
            return
        if 'newreq' in st.g:
            who = st.g['handle']
        ph, X = self.phase(st, who)
        self.oblige(en, kind)
        if kind == 'svc.ready':
            if a[0] == self.MK:
                if ph in ('connecting', 'connected'):
                    self.bad(en, st, 'second-connection', 'the make service was driven while %s' % ph, 'poll_ready')
                if a[1] == 'F':
                    self.setmon(st, who, ('mkerr', a[0]))
                elif ph == 'mkerr':
                    self.setmon(st, who, ('idle', None))
            else:
                if (ph, X) != ('connected', a[0]):
                    self.bad(en, st, 'stale-connection', 'a connection that is not the current one was polled', 'poll_ready')
                elif a[1] == 'F':
                    self.setmon(st, who, ('idle', None))
        elif kind == 'svc.call':
            if a[0] == self.MK:
                if ph in ('connecting', 'connected'):
                    self.bad(en, st, 'second-connection', 'a connection was requested while %s' % ph, 'poll_ready')
                if lv(a[1]) != ('target', 't'):
                    self.bad(en, st, 'wrong-target', 'the make service was asked for %s' % show(lv(a[1])), 'poll_ready')
                self.setmon(st, who, ('connecting', a[2]))
            elif (ph, X) != ('connected', a[0]):
                self.bad(en, st, 'stale-connection', 'a request went to a connection that is not the current one', 'call')
        elif kind == 'fut.poll' and a[1] == 'R' and (ph, X) == ('connecting', a[0]):
            self.setmon(st, who, ('made', a[0]))

    def before(self, en, st, op):
        if op[0] == 'call':
            st.g['handle'] = st.g['w'][op[1]][3]
            st.g['prephase'] = self.phase(st, st.g['handle'])

    def after(self, en, st, op, slot, res):
        if op[0] in ('poll_ready', 'call', 'poll'):
            Wrap.after(self, en, st, op, slot, res)
        st.g.pop('handle', None)
        st.g.pop('prephase', None)

    def spec_poll_ready(self, en, st, slot, res):
        sh, val = shape(res)
        ph, X = self.phase(st, slot[3])
        self.setmon(st, slot[3], (ph, X))
        if sh == 'P' and ph in ('failed', 'mkerr'):
            self.bad(en, st, 'error-not-reported', 'pending although the connection attempt failed', 'poll_ready')
        if sh == 'ok' and not (ph == 'failed' or ph == 'connected' and st.ts.get(X) == 'R'):
            self.bad(en, st, 'ready-without-connection', 'ready in phase "%s"' % ph, 'poll_ready')
        if ph == 'mkerr' and (sh != 'err' or nl(st, val) != ('rderr', self.MK)):
            self.bad(en, st, 'make-error-lost', 'the readiness error of the make service was not returned', 'poll_ready')
        if sh == 'err' and ph != 'mkerr':
            self.bad(en, st, 'spurious-error', 'poll_ready failed in phase "%s"' % ph, 'poll_ready')

    def spec_call(self, en, st, slot, res):
        ph, X = st.g['prephase']
        ev = [e for e in self.evs(st, 'svc.call')]
        if ph == 'failed':
            if ev:
                self.bad(en, st, 'error-swallowed', 'a request was dispatched although a connection error is due', 'call')
            self.setmon(st, slot[3], ('idle', None))
            self.setmon(st, st.g['newreq'][0], ('fails', X))
            return
        Wrap.spec_call(self, en, st, slot, res)
        self.setmon(st, st.g['newreq'][0], ('sent', None))

    def spec_poll(self, en, st, slot, res):
        m = self.mon(st, slot[3])
        if m and m[0] == 'fails':
            sh, val = shape(res)
            if sh != 'err' or nl(st, val) != ('errof', m[1]):
                self.bad(en, st, 'connect-error-lost', 'the request did not fail at once with the connection error', 'poll')
            return
        Wrap.spec_poll(self, en, st, slot, res)


@wrap('Reconnect', 'Reconnect', [svc('mk'), sym('target', 't')], base=ReconnectBase)
class _:
    pass


@wrap('ReconnectWith', 'Reconnect', [svc('c0'), svc('mk'), sym('target', 't')], method='with_connection', base=ReconnectBase)
class _:
    start = ('connected', ('svc', 'c0'))
@wrap('Steer', 'Steer', [('a', 'lib:Vec', 0, (svc('s0'), svc('s1'))), sym('picker', 'p')], **two(futs=1))
class _:
    prop = 'C21'
    cost = 5
    track = Wrap.track | {'pick'}

    def config(self, en):
        from .models import user_code, strip

        def pick(en, st, fr, args, v, o, p):
            user_code(en, st, 'Picker::pick')
            en.count("boundary", "Picker::pick")
            sl = strip(st, args[2])
            out = []
            for i in range(len(sl[3])):
                s = st.copy()
                en.emit(s, 'pick', strip(s, args[1]), tuple(x for x in sl[3]), i)
                out.append((s, I(i)))
            return out
        en.boundary[('Picker', 'pick')] = pick

    def spec_poll_ready(self, en, st, slot, res):
        sh, val = shape(res)
        ev = self.evs(st, 'svc.ready')
        inner = self.inner_of(st, slot)
        if sh == 'ok':
            for L in inner:
                if st.ts.get(L) != 'R':
                    self.bad(en, st, 'ready-before-all', 'Steer is ready although one of its services is not', 'poll_ready')
        elif sh == 'P':
            if inner and all(st.ts.get(L) == 'R' for L in inner):
                self.bad(en, st, 'pending-although-ready', 'Steer is pending although all its services are ready', 'poll_ready')
        elif sh == 'err':
            f = [e for e in ev if e[2] == 'F']
            if not f or nl(st, val) != ('rderr', nl(st, f[-1][1])):
                self.bad(en, st, 'readiness-error-changed', 'the error of the failed service was not returned', 'poll_ready')
        if sh != 'err' and any(e[2] == 'F' for e in ev):
            self.bad(en, st, 'error-hidden', 'a service failed but poll_ready did not report its error', 'poll_ready')

    def spec_call(self, en, st, slot, res):
        Wrap.spec_call(self, en, st, slot, res)
        pk = self.evs(st, 'pick')
        rq = nl(st, st.g['newreq'][1])
        if len(pk) != 1:
            self.bad(en, st, 'not-picked-once', 'the picker was asked %d times for one request' % len(pk), 'call')
            return
        if nl(st, pk[0][1]) != rq:
            self.bad(en, st, 'picked-for-other', 'the picker was shown %s' % show(nl(st, pk[0][1])), 'call')
        if [x[1][1] for x in pk[0][2]] != ['s0', 's1']:
            self.bad(en, st, 'service-order', 'the services shown to the picker are not the configured ones in order', 'call')
        for e in self.evs(st, 'svc.call'):
            if e[1][1] != 's%d' % pk[0][3]:
                self.bad(en, st, 'wrong-service', 'the picker chose service %d but %s was called' % (pk[0][3], e[1][1]), 'call')




PER = ('dur', 'per')


def later(st, a, b):
    """is instant a provably not before instant b?"""
    if a == b:
        return True
    if type(a) is not tuple or not a:
        return False
    if a[0] == 'add' and a[2] == PER and later(st, a[1], b):
        return True
    if a[0] == 'now' and b[0] == 'now':
        return a[1][1] >= b[1][1]
    if a[0] == 'now':
        return st.facts.get(('lt', a, b)) == 0 or st.facts.get(('lt', b, a)) == 1
    return False


@comp
class RateLimit(Wrap):
    """is there a partition of time into windows of at least the period with at most `num` requests each?

    The monitor keeps every candidate (start of the current window, requests in it); a window may end once the
    clock was seen past start + period: a reading compared with that deadline, or a timer armed for it that fired.
    """
    name = 'RateLimit'
    passes_load = True
    prop = 'C12'
    num = 2
    track = Wrap.track | {'now', 'permit.pending'}
    W = ('windows',)

    def thorough(self):
        self.num = 3

    def build(self, en, st):
        out = []
        for s, r in new(en, st, 'Rate', 'new', [I(self.num), sym('dur', 'per')], module='rate'):
            out += new(en, s, 'RateLimit', 'new', [svc(), r])
        return out

    def open_windows(self, en, st, ws, D):
        """deadline D has passed"""
        out = set(ws)
        if type(D) is tuple and D and D[0] == 'add' and D[2] == PER:
            for S, n in ws:
                if S is not None and n and later(st, D[1], S):
                    out.add((D, 0))
                    for e in st.g.get('op', ()):
                        if e[0] == 'now':
                            out.add((e[1], 0))
        return out

    def justify(self, en, st, ws):
        nows = {e[1] for e in st.g.get('op', ()) if e[0] == 'now'}
        for k, v in list(st.facts.items()):
            if type(k) is tuple and k[0] == 'lt' and type(k[1]) is tuple and k[1] and type(k[2]) is tuple and k[2]:
                if v == 0 and k[1] in nows:
                    ws = self.open_windows(en, st, ws, k[2])
                elif v == 1 and k[2] in nows:
                    ws = self.open_windows(en, st, ws, k[1])
        for e in st.g.get('op', ()):
            if e[0] == 'sleep.poll' and e[2] == 'R':
                ws = self.open_windows(en, st, ws, lv(e[1]))
        return ws

    def prune(self, st, ws):
        out = set()
        for n in {n for S, n in ws}:
            c = [S for S, m in ws if m == n]
            if None in c:
                out.add((None, n))
                c = [S for S in c if S is not None]
            keep = set()
            for S in c:
                if not any(T != S and later(st, S, T) and not later(st, T, S) for T in c):
                    keep.add(S)      # earliest
                if not any(T != S and later(st, T, S) and not later(st, S, T) for T in c):
                    keep.add(S)      # latest
            out |= {(S, n) for S in keep}
        return tuple(sorted(out, key=repr))

    def ws(self, st):
        return self.mon(st, self.W, ((None, 0),))

    def event(self, en, st, kind, a):
        if kind == 'svc.call':
            ws = set(self.justify(en, st, self.ws(st)))
            out = set()
            for S, n in ws:
                if S is None:
                    T = {e[1] for e in st.g.get('op', ()) if e[0] == 'now'}
                    for sl in st.g['w']:
                        if sl[0] == 'svc' and sl[1][1] in st.heap:
                            T |= set(find(st.heap[sl[1][1]], lambda x: len(x) == 2 and x[0] == 'now' and type(x[1]) is tuple))
                    out |= {(t, 1) for t in T}
                elif n < self.num:
                    out.add((S, n + 1))
            self.oblige(en, 'quota')
            if not out:
                self.bad(en, st, 'over-limit', 'a request was dispatched although %d were dispatched in the current period' % self.num, 'call')
                out = {(None, 0)}
            self.setmon(st, self.W, self.prune(st, out))

    def after(self, en, st, op, slot, res):
        Wrap.after(self, en, st, op, slot, res)
        ws = self.justify(en, st, self.ws(st))
        if any(s[0] == 'svc' for s in st.g['w']):
            self.setmon(st, self.W, self.prune(st, ws))
        else:
            st.g['mon'] = tuple(x for x in st.g.get('mon', ()) if x[0] != self.W)

    def spec_poll_ready(self, en, st, slot, res):
        sh, val = shape(res)
        sl = self.evs(st, 'sleep.poll')
        if sh == 'P' and not self.evs(st, 'svc.ready'):
            ws = self.ws(st)
            full = [S for S, n in ws if n >= self.num]
            if not full:
                self.bad(en, st, 'limited-early', 'pending although the quota of the period is not used up', 'poll_ready')
            elif not sl or not any(lv(sl[-1][1]) == ('add', S, PER) for S in full):
                self.bad(en, st, 'limited-too-long', 'pending until %s instead of the end of the period' % (show(nl(st, sl[-1][1])) if sl else 'nothing'), 'poll_ready')
            return
        Wrap.spec_poll_ready(self, en, st, slot, res)


@comp
class RateLimit1(RateLimit):
    name = 'RateLimit1'
    num = 1

    def thorough(self):
        self.num = 4


class Misuse:
    """a caller which sends requests without asking for readiness: may panic, may not get past the limit"""
    call_any = True
    prop_only = True
    wake = False
    allow_panics = ('',)
    ONLY = frozenset()

    def bad(self, en, st, kind, what, k):
        if kind in self.ONLY:
            super().bad(en, st, kind, what + ' (the caller did not ask for readiness)', k)


@comp
class ConcurrencyLimitMisuse(Misuse, REG['ConcurrencyLimit']):
    name = 'ConcurrencyLimitMisuse'
    ONLY = frozenset({'request-without-permit'})


@comp
class RateLimitMisuse(Misuse, RateLimit):
    name = 'RateLimitMisuse'
    ONLY = frozenset({'over-limit'})


@comp
class Buffer(Limited):
    """monitors: the queue of accepted requests, the recorded failure, the future of each dispatched request"""
    name = 'Buffer'
    prop = 'C08'
    handles = 2
    clone = True
    futs = 1
    poll_after_err = True
    max_states = 20000
    cost = 40
    track = {'svc.ready', 'svc.call'}
    Q, FAIL = ('queue',), ('failed',)

    def build(self, en, st):
        out = []
        for s, r in new(en, st, 'Buffer', 'pair', [svc(), sym('u', 'bound')], module='buffer'):
            o = s.new(lib('Task', r[1][1], I(0), UNIT))
            s.g['tasks'] = (('r', o, ()),)
            out.append((s, r[1][0]))
        return out

    def extra_ops(self, en, st):
        # the executor may drop the worker at any time
        return [('kill', 't')] if st.g.get('tasks') else []

    def apply(self, en, st, op):
        self.setmon(st, ('killed',), 1)
        t = st.g['tasks'][0][1]
        outs = en.drop_at(st, t, (0,))
        for s in outs:
            h = s.heap[t]
            s.heap[t] = ('a', h[1], 0, (UNDEF, I(2), UNIT))
        return [(s, UNIT) for s in outs]

    def live(self, st, sid):
        return any(s[3] == sid for s in st.g['w'])

    def failed(self, st):
        return self.mon(st, self.FAIL)

    def b(self, en, st, prop, kind, what, k):
        en.violate(st, prop, kind, what, '%s::%s' % (self.name, k))

    def event(self, en, st, kind, a):
        if kind == 'svc.ready' and a[1] == 'F':
            if self.failed(st):
                self.b(en, st, 'C09', 'polled-after-failure', 'the failed service was polled again', 'worker')
            self.setmon(st, self.FAIL, ('rderr', a[0]))
        elif kind == 'svc.call':
            self.oblige(en, 'dispatch')
            rq = lv(a[1])
            q = self.mon(st, self.Q, ())
            if self.failed(st):
                self.b(en, st, 'C09', 'dispatched-after-failure', 'a request was dispatched after the service failed', 'worker')
            ids = [x for x in q if ('req', x) == rq]
            if not ids:
                if rq[0] == 'req' and not self.live(st, rq[1]):
                    self.b(en, st, 'C10', 'cancelled-request-dispatched', 'a request whose response future was dropped was dispatched', 'worker')
                self.b(en, st, 'C08', 'not-exactly-once', 'the worker dispatched %s, which is not a request waiting in the buffer' % show(nl(st, rq)), 'worker')
                return
            i = q.index(ids[0])
            if not self.live(st, ids[0]):
                self.b(en, st, 'C10', 'cancelled-request-dispatched', 'a request whose response future was dropped was dispatched', 'worker')
            if any(self.live(st, x) for x in q[:i]):
                self.b(en, st, 'C10', 'out-of-order', 'a request overtook an earlier one', 'worker')
            self.setmon(st, self.Q, q[i + 1:])
            self.setmon(st, ids[0], ('sent', a[2]))
        elif kind == 'mpsc.close' and self.failed(st) and not st.g.get('locks') and 'inop' not in st.g:
            # from here on other threads see the queue closed and look for the error
            st.g['inop'] = self.shared(st)

    def shared(self, st):
        return tuple(nl(st, v[3][0]) for v in self.walk(st, lambda v: v[1] == 'lib:Mutex'))

    def after(self, en, st, op, slot, res):
        k = op[0]
        inop = st.g.pop('inop', None)
        if inop is not None:
            self.oblige(en, 'close')
            if inop != self.shared(st):
                self.b(en, st, 'C09', 'closed-before-error-recorded', 'the queue is closed before the error which callers are to see is in place', 'worker')
        for v in self.walk(st, lambda v: v[1] == 'lib:Chan'):
            if nl(st, v[3][5]) != ('u', 'bound'):
                self.b(en, st, 'C10', 'wrong-bound', 'the queue is bounded by %s instead of the configured bound' % show(nl(st, v[3][5])), k)
        f = getattr(self, 'spec_' + k, None)
        if f:
            self.oblige(en, k)
            f(en, st, slot, res)
        q = self.mon(st, self.Q, ())
        nq = tuple(x for x in q if self.live(st, x))
        if nq != q:
            self.setmon(st, self.Q, nq)
        if not st.g['w']:
            st.g.pop('mon', None)

    def spec_call(self, en, st, slot, res):
        if self.evs(st, 'svc.call', 'svc.ready'):
            self.b(en, st, 'C08', 'handle-used-service', 'the handle drove the service itself', 'call')
        self.setmon(st, self.Q, self.mon(st, self.Q, ()) + (st.g['newreq'][0],))

    def spec_poll_ready(self, en, st, slot, res):
        sh, val = shape(res)
        gone = not self.worker(st)
        bad = self.failed(st)
        if (gone or bad) and sh != 'err':
            self.b(en, st, 'C09', 'failure-hidden', 'poll_ready returned %s although %s' % (sh, 'the service failed' if bad else 'the worker is gone'), 'poll_ready')
        if sh == 'err':
            self.judge(en, st, nl(st, val), 'poll_ready')

    def worker(self, st):
        return [t for t in st.g.get('tasks', ()) if t[1] in st.heap and st.heap[t[1]][3][1] == I(0)]

    def judge(self, en, st, e, k):
        """an error that is not a response: the recorded failure, or Closed when there is none"""
        bad = self.failed(st)
        if bad and k == 'poll' and self.mon(st, ('killed',)) and e[:2] == ('adt', 'Closed'):
            return
        if bad:
            if e[:2] != ('adt', 'ServiceError') or not find(e, lambda x: x == bad):
                self.b(en, st, 'C09', 'failure-not-reported', 'failed with %s instead of the failure of the service' % show(e), k)
        elif e[:2] != ('adt', 'Closed'):
            self.b(en, st, 'C09', 'spurious-failure', 'failed with %s although the service did not fail' % show(e), k)
        elif self.worker(st):
            self.b(en, st, 'C09', 'closed-while-running', 'failed with Closed although the worker is running', k)

    def spec_poll(self, en, st, slot, res):
        sh, val = shape(res)
        if sh == 'P':
            return
        m = self.mon(st, slot[3])
        n = nl(st, res[3][0])
        if m is None:
            if sh != 'err':
                self.b(en, st, 'C08', 'response-of-nothing', 'resolved to %s although the request was never dispatched' % show(n), 'poll')
            else:
                self.judge(en, st, nl(st, val), 'poll')
            return
        for a in alts(st, res[3][0]):
            if a not in both(nl(st, m[1])):
                self.b(en, st, 'C08', 'wrong-response', 'resolved to %s instead of the result of its own call' % show(a), 'poll')

    def spec_task(self, en, st, slot, res):
        sh, val = shape(res)
        q = [x for x in self.mon(st, self.Q, ()) if self.live(st, x)]
        ev = self.evs(st, 'svc.ready', 'svc.call')
        if sh == 'P' and q and not self.failed(st) and not (ev and ev[-1][0] == 'svc.ready' and ev[-1][2] == 'P'):
            self.b(en, st, 'C08', 'request-not-processed', 'the worker went to sleep with a request waiting and the service not pending', 'worker')
        if sh == 'R' and not self.failed(st):
            if any(s[0] == 'svc' for s in st.g['w']):
                self.b(en, st, 'C09', 'worker-stopped', 'the worker finished although handles exist and the service did not fail', 'worker')
            elif q:
                self.b(en, st, 'C08', 'request-dropped', 'the worker finished with a request waiting', 'worker')


@comp
class BufferQueue(Buffer):
    """one handle, two requests in flight"""
    name = 'BufferQueue'
    handles = 1
    clone = False
    futs = 3


@comp
class Oneshot(Wrap):
    name = 'Oneshot'
    prop = 'C27'
    roots = ('fut',)

    def build(self, en, st):
        return new(en, st, 'Oneshot', 'new', [svc(), sym('req', 'r')], module='oneshot')

    def spec_poll(self, en, st, slot, res):
        sh, val = shape(res)
        m = self.mon(st, slot[3])
        rd = self.evs(st, 'svc.ready')
        for e in self.evs(st, 'svc.call'):
            if m:
                self.bad(en, st, 'not-exactly-one-call', 'the request was dispatched twice', 'poll')
            if nl(st, e[2]) != ('req', 'r'):
                self.bad(en, st, 'request-changed', 'the service received %s' % show(nl(st, e[2])), 'poll')
            m = ('sent', e[3])
            self.setmon(st, slot[3], m)
        if sh == 'P':
            if not m and rd and rd[-1][2] == 'R':
                self.bad(en, st, 'not-dispatched', 'the service is ready but the request was not dispatched', 'poll')
            return
        if not m:
            if sh != 'err' or not rd or rd[-1][2] != 'F' or nl(st, val) != ('rderr', nl(st, rd[-1][1])):
                self.bad(en, st, 'resolved-without-call', 'resolved to %s although the request was not dispatched' % show(nl(st, res[3][0])), 'poll')
            return
        self.result(en, st, slot, res[3][0], nl(st, m[1]))


@comp
class ReadyOneshot(Wrap):
    name = 'ReadyOneshot'
    prop = 'C27'
    roots = ('fut',)

    def build(self, en, st):
        return new(en, st, 'ReadyOneshot', 'new', [svc()])

    def spec_poll(self, en, st, slot, res):
        sh, val = shape(res)
        rd = self.evs(st, 'svc.ready')
        if self.evs(st, 'svc.call'):
            self.bad(en, st, 'request-dispatched', 'waiting for readiness dispatched a request', 'poll')
        want = {'P': 'P', 'R': 'ok', 'F': 'err'}[rd[-1][2]] if rd else 'P'
        if sh != want:
            self.bad(en, st, 'readiness-mismatch', 'the service answered %s, the future %s' % (rd[-1][2] if rd else 'nothing', sh), 'poll')
        elif sh == 'err' and nl(st, val) != ('rderr', nl(st, rd[-1][1])):
            self.bad(en, st, 'readiness-error-changed', 'failed with %s' % show(nl(st, val)), 'poll')
        elif sh == 'ok':
            v = val
            while v[0] in ('r', 'b'):
                v = st.get(*st.deref(v))
            if nl(st, v) != ('svc', 'in') or st.ts.get(('svc', 'in')) != 'R':
                self.bad(en, st, 'wrong-service', 'resolved to %s' % show(nl(st, v)), 'poll')


@comp
class Ready(ReadyOneshot):
    name = 'Ready'

    def build(self, en, st):
        o = st.new(svc())
        ks = [k for k, f in en.F.fns.items() if f["crate"] == 'tower' and f["path"].endswith('ServiceExt::ready')]
        if not ks:
            raise CheckError('ServiceExt::ready not found')
        return en.run_body(st, en.C.body(ks[0]), [('r', o, ())])


@comp
class MutRef(Wrap):
    """a borrowed service is that service"""
    name = 'MutRef'

    def build(self, en, st):
        return [(st, ('r', st.new(svc()), ()))]


@comp
class Boxed(Wrap):
    """a service in a box is that service"""
    name = 'Boxed'

    def build(self, en, st):
        return [(st, ('b', st.new(svc())))]


@comp
class CallAllOrdered(Wrap):
    """monitors: items taken from the stream but not dispatched; dispatched calls whose response is owed; the readiness failure"""
    name = 'CallAllOrdered'
    prop = 'C26'
    roots = ('stream',)
    ordered = True
    auto_drop = False
    track = {'svc.ready', 'stream.poll', 'svc.call'}
    W, O, E, END = ('cawait',), ('caowed',), ('caerr',), ('caend',)

    def config(self, en):
        def items(st, L):
            live = sum(1 for k, v in st.ts.items() if k[0] == 'fut' and v == 'live')
            if live >= self.max_out or len(self.mon(st, self.W, ())) >= self.max_out:
                return ('P', None)
            return ('P', None, lambda s: ('s', ('item', s.fresh())))
        en.stream_items = items

    def build(self, en, st):
        return new(en, st, 'CallAll', 'new', [svc(), sym('stream', 'reqs')], module='ordered')

    def extra_ops(self, en, st):
        return [('unordered', i) for i, s in enumerate(st.g['w']) if s[0] == 'stream' and s[2] != 'D' and not self.mon(st, ('conv',))] if self.ordered else []

    def apply(self, en, st, op):
        slot = st.g['w'][op[1]]
        o = slot[1][1]
        st.g['mute'] = 1        # panics if the stream was polled before, as documented
        ks = en.F.inherent.get((adt(en, 'CallAll', 'ordered'), 'unordered'))
        if not ks:
            return []
        out = []
        for s, r in en.run_body(st, en.C.body(ks[0]), [st.heap[o]]):
            s.g.pop('mute', None)
            s.heap[o] = r
            self.setmon(s, ('conv',), 1)
            if self.mon(s, self.W) or self.mon(s, self.O):
                self.bad(en, s, 'request-lost', 'unordered() discards a request already taken from the stream', 'unordered')
                self.setmon(s, self.W, ())
                self.setmon(s, self.O, ())
            out.append((s, UNIT))
        return out

    def event(self, en, st, kind, a):
        if kind == 'stream.poll':
            if self.mon(st, self.E):
                self.bad(en, st, 'stream-polled-after-failure', 'a request was taken although the service failed', 'poll_next')
            if a[1] == 'item':
                self.setmon(st, self.W, self.mon(st, self.W, ()) + (lv(a[2]),))
            elif a[1] == 'end':
                self.setmon(st, self.END, 1)
        elif kind == 'svc.ready' and a[1] == 'F':
            self.setmon(st, self.E, self.mon(st, self.E, ()) + (('rderr', nl(st, a[0])),))
        elif kind == 'svc.call':
            self.oblige(en, 'dispatch')
            w = self.mon(st, self.W, ())
            rq = lv(a[1])
            if self.mon(st, self.E):
                self.bad(en, st, 'dispatched-after-failure', 'a request was dispatched although the service failed', 'poll_next')
            if rq not in w:
                self.bad(en, st, 'not-exactly-once', 'dispatched %s, which is not a request waiting to be dispatched' % show(nl(st, rq)), 'poll_next')
                return
            if w[0] != rq:
                self.bad(en, st, 'out-of-order', 'a request overtook an earlier one', 'poll_next')
            self.setmon(st, self.W, tuple(x for x in w if x != rq))
            self.setmon(st, self.O, self.mon(st, self.O, ()) + (lv(a[2]),))

    def spec_poll_next(self, en, st, slot, res):
        sh, val = shape(res)
        W, O, E = self.mon(st, self.W, ()), self.mon(st, self.O, ()), self.mon(st, self.E, ())
        ordered = self.ordered and not self.mon(st, ('conv',))
        done = [F for F in O if st.ts.get(F) != 'live']
        if sh == 'some':
            n = nl(st, val)
            if n[:1] == ('err',) and E and n[1] in E:
                self.setmon(st, self.E, (('reported',),))
                return
            hit = [F for F in O if n in both(nl(st, F)) or n == ('out', nl(st, F))]
            if not hit:
                self.bad(en, st, 'response-of-nothing', 'yielded %s, which is no owed response' % show(n), 'poll_next')
                return
            if ordered and hit[0] != O[0]:
                self.bad(en, st, 'responses-out-of-order', 'yielded the response of a later request first', 'poll_next')
            self.setmon(st, self.O, tuple(x for x in O if x != hit[0]))
            return
        if sh == 'none':
            if O:
                self.bad(en, st, 'response-lost', 'the stream ended with a response outstanding', 'poll_next')
            if E and E != (('reported',),):
                self.bad(en, st, 'failure-lost', 'the stream ended without reporting the failure of the service', 'poll_next')
            if W and not E:
                self.bad(en, st, 'request-lost', 'the stream ended with a request not dispatched', 'poll_next')
            if not E and not self.mon(st, self.END):
                self.bad(en, st, 'ended-early', 'the stream ended although more requests may come', 'poll_next')
            return
        if sh == 'P':
            if E and E != (('reported',),):
                self.bad(en, st, 'failure-lost', 'pending with an unreported failure of the service', 'poll_next')
            if done and (not ordered or done[0] == O[0]):
                self.bad(en, st, 'response-withheld', 'pending although a response is available', 'poll_next')
            ev = self.evs(st, 'svc.ready', 'stream.poll')
            if not E and not (ev and ev[-1][2] == 'P') and not (self.mon(st, self.END) and not W):
                self.bad(en, st, 'request-withheld', 'pending although neither the stream nor the service is', 'poll_next')
            if W and not E and not any(e[0] == 'svc.ready' and e[2] == 'P' for e in ev):
                self.bad(en, st, 'request-withheld', 'pending with a request waiting although the service is not', 'poll_next')


@comp
class CallAllUnordered(CallAllOrdered):
    name = 'CallAllUnordered'
    ordered = False

    def build(self, en, st):
        return new(en, st, 'CallAllUnordered', 'new', [svc(), sym('stream', 'reqs')])


@comp
class Retry(Wrap):
    """an automaton per response future: called -> answered -> waiting -> go -> called ..."""
    name = 'Retry'
    prop = 'C15'
    track = ()
    clone = True
    handles = 1
    futs = 1

    def build(self, en, st):
        return new(en, st, 'Retry', 'new', [sym('policy', 'p'), svc()], module='retry')

    def root(self, st):
        who = st.g.get('who')
        if 'newreq' in st.g:
            return st.g['newreq'][1]
        for s in st.g['w']:
            if s[3] == who and s[0] == 'fut':
                return s[5][1]
        return None

    def event(self, en, st, kind, a):
        if kind not in ('policy.clone', 'policy.retry', 'svc.call', 'fut.poll', 'svc.ready'):
            return
        who = st.g.get('who')
        m = self.mon(st, who)
        rq = self.root(st)
        if rq is None:
            return
        if kind == 'svc.ready':
            if m is not None and m[0] == 'go':
                self.setmon(st, who, ({'R': 'ready', 'P': 'go', 'F': 'rderr'}[a[1]],) + m[1:] if a[1] != 'F' else ('rderr', a[0], m[2]))
            return
        self.oblige(en, kind)
        if m is None:
            m = ('new', None, None)
        ph, F, cl = m
        if kind == 'policy.clone':
            if self.rooted(a[1]) != rq:
                self.bad(en, st, 'cloned-other-request', 'the policy was asked to clone %s instead of the request' % show(nl(st, a[1])), 'clone')
            self.setmon(st, who, (ph, F, a[2] is not None))
        elif kind == 'svc.call':
            if ph not in ('new', 'ready'):
                self.bad(en, st, 'unsolicited-attempt', 'an attempt was dispatched in phase "%s": the policy did not ask for it or its delay has not completed' % ph, 'call')
            r = lv(a[1])
            if self.rooted(r) != rq:
                self.bad(en, st, 'other-request-sent', 'an attempt carried %s instead of the request' % show(nl(st, r)), 'call')
            self.setmon(st, who, ('called', a[2], cl))
        elif kind == 'fut.poll' and a[1] == 'R':
            if a[0][0] == 'fut':
                if ph == 'called' and a[0] == F:
                    self.setmon(st, who, ('answered', F, cl))
            elif ph == 'waiting' and a[0][0] == 'ufut' and a[0] == cl[1]:
                self.setmon(st, who, ('go', F, cl[0]))
        elif kind == 'policy.retry':
            if ph != 'answered':
                self.bad(en, st, 'policy-asked-out-of-turn', 'the policy was consulted in phase "%s"' % ph, 'retry')
            if cl is not True:
                self.bad(en, st, 'policy-asked-without-clone', 'the policy was consulted although the request could not be cloned', 'retry')
            if self.rooted(a[1]) != rq:
                self.bad(en, st, 'policy-shown-other-request', 'the policy was shown %s' % show(nl(st, a[1])), 'retry')
            n = alts(st, a[2])
            if not all(x in both(F) for x in n):
                self.bad(en, st, 'policy-shown-other-result', 'the policy was shown %s instead of the result of the last attempt' % show(n[0]), 'retry')
            if a[3] is None:
                self.setmon(st, who, ('declined', F, cl))
            else:
                self.setmon(st, who, ('waiting', F, (cl, a[3])))

    @staticmethod
    def rooted(r):
        return r[1] if type(r) is tuple and r and r[0] == 'rqclone' else r

    def spec_poll_ready(self, en, st, slot, res):
        pass

    def spec_call(self, en, st, slot, res):
        m = self.mon(st, st.g['newreq'][0])
        if not m or m[0] != 'called' or m[2] is None:
            self.bad(en, st, 'first-attempt', 'call did not clone the request and dispatch it once', 'call')

    def spec_poll(self, en, st, slot, res):
        sh, val = shape(res)
        m = self.mon(st, slot[3])
        if sh == 'P' or not m:
            return
        ph, F, cl = m
        if ph == 'rderr':
            if sh != 'err' or nl(st, val) != ('rderr', nl(st, F)):
                self.bad(en, st, 'readiness-error-lost', 'the readiness error of the retry was not returned', 'poll')
            return
        if ph == 'declined' or (ph == 'answered' and cl is False):
            for a in alts(st, res[3][0]):
                if a not in both(F):
                    self.bad(en, st, 'not-last-result', 'resolved to %s instead of the result of the last attempt' % show(a), 'poll')
            return
        if ph == 'answered':
            self.bad(en, st, 'policy-not-asked', 'resolved without consulting the policy', 'poll')
        else:
            self.bad(en, st, 'resolved-early', 'resolved in phase "%s"' % ph, 'poll')


@comp
class Hedge(Wrap):
    """automaton per request: primary future, cloned?, armed?, timer fired?, hedge future"""
    name = 'Hedge'
    prop = 'C17'
    cost = 5
    track = {'svc.ready', 'svc.call', 'fut.poll', 'policy.clone', 'sleep.new', 'sleep.poll', 'trait.call', 'hist.record', 'hist.len'}

    def build(self, en, st):
        return new(en, st, 'Hedge', 'new', [svc(), sym('hpolicy', 'p'), sym('u', 'min'), sym('fl', 'pct'), sym('dur', 'period')])

    def spec_poll_ready(self, en, st, slot, res):
        sh, val = shape(res)
        ev = self.evs(st, 'svc.ready')
        last = {e[1]: e[2] for e in ev}
        if self.evs(st, 'svc.call'):
            self.bad(en, st, 'call-from-poll_ready', 'poll_ready dispatched a request', 'poll_ready')
        if any(x == 'F' for x in last.values()) and sh != 'err':
            self.bad(en, st, 'error-hidden', 'a service failed but poll_ready did not report its error', 'poll_ready')
        if sh == 'err' and nl(st, val) not in [('rderr', nl(st, L)) for L, x in last.items() if x == 'F']:
            self.bad(en, st, 'readiness-error-changed', 'poll_ready failed with %s' % show(nl(st, val)), 'poll_ready')
        if sh == 'P' and not any(x == 'P' for x in last.values()):
            self.bad(en, st, 'readiness-mismatch', 'poll_ready is pending although no service is', 'poll_ready')

    def spec_call(self, en, st, slot, res):
        Wrap.spec_call(self, en, st, slot, res)
        cl = self.evs(st, 'policy.clone')
        sl = self.evs(st, 'sleep.new')
        rq = nl(st, st.g['newreq'][1])
        for e in cl:
            if nl(st, e[2]) != rq:
                self.bad(en, st, 'cloned-other-request', 'the policy was asked to clone %s' % show(nl(st, e[2])), 'call')
        some_ = any(e[3] is not None for e in cl)
        lens = [e[1] for e in self.evs(st, 'hist.len')]
        enough = [v for v in (st.facts.get(('lt', h, ('u', 'min'))) for h in lens) if v is not None]
        if sl and not some_:
            self.bad(en, st, 'hedged-without-clone', 'a hedge was scheduled although the policy did not clone the request', 'call')
        if sl and enough != [0]:
            self.bad(en, st, 'hedged-without-data', 'a hedge was scheduled without the minimum number of latency samples', 'call')
        if some_ and enough == [0] and len(sl) != 1:
            self.bad(en, st, 'hedge-not-scheduled', 'the request was cloned and there are enough samples, but %d hedges were scheduled' % len(sl), 'call')
        for e in sl:
            d = nl(st, e[1])
            q = find(d, lambda x: len(x) == 4 and x[:2] == ('u', 'quantile'))
            pc = q[0][3] if q else ()
            while pc and pc[0] == 'cvt':
                pc = pc[2]
            if d[0] != 'add' or d[1][0] != 'now' or not q or pc != ('fl', 'pct'):
                self.bad(en, st, 'wrong-delay', 'the hedge is delayed until %s' % show(d), 'call')
        F = [e[3] for e in self.evs(st, 'svc.call')]
        self.setmon(st, st.g['newreq'][0], (F[0] if F else None, bool(sl), False, None))

    def spec_poll(self, en, st, slot, res):
        sh, val = shape(res)
        m = self.mon(st, slot[3])
        if not m:
            return
        F, armed, fired, H = m
        rq = nl(st, slot[5][1])
        got = None
        polled = {}
        for e in st.g.get('op', ()):
            if e[0] == 'sleep.poll':
                if not armed:
                    self.bad(en, st, 'stray-timer', 'a timer was polled although no hedge is scheduled', 'poll')
                fired = fired or e[2] == 'R'
                polled['timer'] = e[2]
            elif e[0] == 'svc.call':
                if not armed or not fired:
                    self.bad(en, st, 'early-hedge', 'the hedge was dispatched before its delay had passed', 'poll')
                if H is not None:
                    self.bad(en, st, 'two-hedges', 'a request was hedged twice', 'poll')
                if nl(st, e[2]) != ('rqclone', rq):
                    self.bad(en, st, 'hedge-changed', 'the hedge carries %s' % show(nl(st, e[2])), 'poll')
                if not any(v == 1 for k, v in st.facts.items() if type(k) is tuple and k[:3] == ('m', 'Policy', 'can_retry')):
                    self.bad(en, st, 'hedge-not-allowed', 'the hedge was dispatched although the policy did not allow it', 'poll')
                H = e[3]
            elif e[0] == 'fut.poll':
                polled[e[1]] = e[2]
                if e[2] == 'R' and got is None:
                    got = e[1]
        if H is not None or fired:
            self.setmon(st, slot[3], (F, armed, fired, H))
        if sh == 'P':
            if got is not None:
                self.bad(en, st, 'response-lost', 'a response was available but the request stays pending', 'poll')
            if polled.get(F) != 'P':
                self.bad(en, st, 'primary-not-polled', 'pending without the primary having been polled', 'poll')
            if armed and not fired and polled.get('timer') != 'P':
                self.bad(en, st, 'timer-not-polled', 'pending without the hedge timer having been polled', 'poll')
            if H is not None and polled.get(H) != 'P':
                self.bad(en, st, 'hedge-not-polled', 'pending without the hedge having been polled', 'poll')
            return
        if got is None:
            rd = [e for e in self.evs(st, 'svc.ready') if e[2] == 'F']
            if not (sh == 'err' and rd and fired and nl(st, val) == ('rderr', nl(st, rd[-1][1]))):
                self.bad(en, st, 'response-of-nothing', 'resolved to %s although no response was available' % show(nl(st, res[3][0])), 'poll')
            return
        want = both(nl(st, got))
        for x in alts(st, res[3][0]):
            if x not in want:
                self.bad(en, st, 'response-changed', 'resolved to %s instead of the first available result' % show(x), 'poll')
        if sh == 'ok' and len(self.evs(st, 'hist.record')) != 1:
            self.bad(en, st, 'latency-not-recorded', 'a successful response recorded %d latencies' % len(self.evs(st, 'hist.record')), 'poll')


@comp
class Balance(Wrap):
    """monitor: the endpoints discovery has announced and not taken back, oldest first"""
    name = 'Balance'
    prop = 'C18'
    per_poll = 1
    max_live = 2
    drop_call = True
    cost = 60
    keys = ('a', 'b')
    EP, GONE, LD = ('eps',), ('gone',), ('loads',)
    track = {'svc.ready', 'svc.call', 'stream.poll'}

    def thorough(self):
        self.per_poll = 2

    def config(self, en):
        ch = adt(en, 'Change')

        def ins(k):
            return lambda s: ok(('a', ch, 0, (('s', ('key', k)), ('s', ('svc', k, s.fresh())))))

        def rem(k):
            return lambda s: ok(('a', ch, 1, (('s', ('key', k)),)))

        def items(st, L):
            n = st.g.get('nit', 0)
            if n >= self.per_poll:
                return ('P',)
            st.g['nit'] = n + 1
            live = sum(1 for k, v in st.ts.items() if k[0] == 'svc')
            out = ('P', None, lambda s: err(('s', ('discerr',))), rem('a'))
            if live < self.max_live:
                out += tuple(ins(k) for k in self.keys)
            return out
        en.stream_items = items

    def may_unready(self, en, st):
        return bool(st.g.get('nit'))       # discovery changed the set of endpoints

    def may_hang(self, en, st):
        if st.ts.get(('stream', 'disc')) != 'ended':
            return False
        key, ns, ex = canon(st)
        return not any(k[0] == 'svc' for k in ns.ts)

    def build(self, en, st):
        return new(en, st, 'Balance', 'from_rng', [sym('stream', 'disc'), sym('rng', 'r')], module='p2c')

    def event(self, en, st, kind, a):
        eps = self.mon(st, self.EP, ())
        if kind == 'stream.poll' and a[1] == 'item':
            n = nl(st, a[2])
            if n[0] != 'ok':
                return
            c = n[1]
            if c[2] == 0:
                # an earlier endpoint with this key may serve until the new one is ready
                self.setmon(st, self.EP, tuple(e if e[0] != c[3] else e[:2] + ('old',) for e in eps) + ((c[3], lv(c[4]), 'new'),))
            else:
                self.setmon(st, self.EP, tuple(e for e in eps if e[0] != c[3]))
        elif kind == 'drop' and st.g.get('inop') and any(e[1] == a[0] for e in eps):
            e = [e for e in eps if e[1] == a[0]][0]
            if e[2] == 'new':
                self.bad(en, st, 'endpoint-lost', 'an endpoint which was neither removed, replaced nor failed was dropped', st.g['inop'])
            self.setmon(st, self.EP, tuple(x for x in eps if x is not e))
        elif kind == 'svc.ready':
            self.oblige(en, 'endpoint polled')
            L = a[0]
            mine = [e for e in eps if e[1] == L]
            if not mine:
                self.bad(en, st, 'polled-after-removal', 'an endpoint which was removed or has failed was polled', 'poll_ready')
                return
            ld = self.mon(st, self.LD, ())
            for X in set(ld):
                if X != L and L in ld and self.less(st, X, L):
                    self.bad(en, st, 'chose-more-loaded', 'of two sampled endpoints the one with the higher load was chosen', 'poll_ready')
            sl = [s for s in st.g['w'] if s[3] == st.g.get('who')]
            ready = [e for e in eps if st.ts.get(e[1]) == 'R']
            if a[1] == 'R' and st.ts.get(L) == 'R' and len(ready) > 1 and L in st.g.get('wasR', ()) and sl and sl[0][2] in ('N', 'P') and len(set(ld)) < 2:
                self.bad(en, st, 'no-load-comparison', 'an endpoint was chosen without comparing the loads of two', 'poll_ready')
            self.setmon(st, self.LD, ())
            if a[1] == 'F':
                self.setmon(st, self.EP, tuple(e for e in eps if e[1] != L))
            elif a[1] == 'R' and mine[0][2] == 'new':
                self.setmon(st, self.EP, tuple(e for e in eps if e[0] != mine[0][0] or e[1] == L))
            st.g['wasR'] = tuple(e[1] for e in eps if st.ts.get(e[1]) == 'R')
        elif kind == 'trait.call' and a[0] == 'Load':
            L = lv(a[2]) if a[2][0] == 's' else a[2]
            self.setmon(st, self.LD, self.mon(st, self.LD, ()) + (L,))
            st.g['wasR'] = tuple(e[1] for e in eps if st.ts.get(e[1]) == 'R')
        elif kind == 'svc.call':
            self.oblige(en, 'dispatch')
            L = a[0]
            if not any(e[1] == L for e in eps):
                self.bad(en, st, 'called-after-removal', 'a request was dispatched to an endpoint which was removed or replaced or has failed', 'call')

    def less(self, st, X, L):
        """is load(X) < load(L) an established fact?"""
        def of(t, Z):
            return type(t) is tuple and t[:2] == ('m', 'Load') and bool(find(t, lambda y: y == Z))
        for k, v in st.facts.items():
            if type(k) is tuple and k[0] == 'lt' and v == 1 and of(k[1], X) and of(k[2], L):
                return True
        return False

    def before(self, en, st, op):
        Wrap.before(self, en, st, op)
        if op[0] in ('poll_ready', 'call'):
            st.g['inop'] = op[0]

    def after(self, en, st, op, slot, res):
        Wrap.after(self, en, st, op, slot, res)
        st.g.pop('wasR', None)
        st.g.pop('inop', None)
        if self.mon(st, self.LD):
            self.setmon(st, self.LD, ())

    def counted(self, en, st, slot, eps):
        """len and is_empty"""
        low, top = sum(1 for e in eps if e[2] == 'new'), max(len(eps), sum(1 for k in st.ts if k[0] == 'svc'))
        en.mute += 1
        bad = None
        try:
            got = {}
            for m in ('len', 'is_empty'):
                rs = set(r for s, r in new(en, st.copy(), 'Balance', m, [slot[1]], module='p2c') if not s.taint)
                if len(rs) != 1:
                    return
                got[m] = rs.pop()
            n = got['len']
            if n[0] == 'i' and not low <= n[1] <= top:
                bad = 'len is %d with %d endpoints' % (n[1], len(eps))
            elif n[0] == 'i' and got['is_empty'] in (TRUE, FALSE) and (got['is_empty'] == TRUE) != (n[1] == 0):
                bad = 'is_empty is %s with %d endpoints' % (got['is_empty'] == TRUE, n[1])
        finally:
            en.mute -= 1
        if bad:
            self.bad(en, st, 'wrong-count', bad, 'len')

    def spec_poll_ready(self, en, st, slot, res):
        sh, val = shape(res)
        if sh != 'err':
            self.counted(en, st, slot, self.mon(st, self.EP, ()))
        ev = self.evs(st, 'svc.ready')
        eps = self.mon(st, self.EP, ())
        if self.evs(st, 'svc.call'):
            self.bad(en, st, 'call-from-poll_ready', 'poll_ready dispatched a request', 'poll_ready')
        derr = [e for e in self.evs(st, 'stream.poll') if e[2] == 'item' and nl(st, e[3])[0] == 'err']
        if sh == 'err':
            n = nl(st, val)
            if not derr or n[:2] != ('adt', 'Discover') or not find(n, lambda x: x == ('discerr',)):
                self.bad(en, st, 'endpoint-error-surfaced', 'poll_ready failed with %s although discovery did not' % show(n), 'poll_ready')
            return
        if derr:
            self.bad(en, st, 'discovery-error-hidden', 'discovery failed but poll_ready answered %s' % sh, 'poll_ready')
        if not self.evs(st, 'stream.poll') and st.ts.get(('stream', 'disc')) != 'ended':
            self.bad(en, st, 'discovery-not-polled', 'poll_ready did not ask discovery for changes', 'poll_ready')
        ready = [e for e in eps if st.ts.get(e[1]) == 'R']
        if sh == 'P':
            for e in eps:
                if st.ts.get(e[1]) == 'R':
                    self.bad(en, st, 'ready-endpoint-ignored', 'poll_ready is pending although an endpoint is ready', 'poll_ready')
                elif st.ts.get(e[1]) != 'P' and e[2] == 'new':
                    self.bad(en, st, 'endpoint-not-polled', 'poll_ready is pending although an endpoint was not polled', 'poll_ready')
        elif sh == 'ok' and not ready:
            self.bad(en, st, 'ready-without-endpoint', 'poll_ready answered ready although no endpoint is', 'poll_ready')


@comp
class BalanceOne(Wrap):
    """one endpoint: its responses and errors reach the caller"""
    name = 'BalanceOne'
    prop = 'C18'

    def config(self, en):
        ch = adt(en, 'Change')

        def items(st, L):
            if st.g.get('inserted'):
                return ('P',)
            st.g['inserted'] = 1
            return (lambda s: ok(('a', ch, 0, (('s', ('key', 'a')), ('s', ('svc', 'a'))))),)
        en.stream_items = items

    def build(self, en, st):
        return new(en, st, 'Balance', 'from_rng', [sym('stream', 'disc'), sym('rng', 'r')], module='p2c')

    def spec_poll_ready(self, en, st, slot, res):
        pass


def meth(en, st, name, method, args, module=None):
    return new(en, st, name, method, args, module=module)


@comp
class ReadyCache(Wrap):
    """monitor: every service pushed and not evicted, replaced, failed or used up: (key, service, pending|ready)"""
    name = 'ReadyCache'
    prop = 'C19'
    roots = ('obj',)
    cost = 50
    keys = ('a', 'b')
    max_live = 2
    prop_only = False
    EP, CK = ('eps',), ('checked',)
    track = {'svc.ready', 'svc.call'}

    def thorough(self):
        self.max_live = 3

    def build(self, en, st):
        return via(en, st, 'Default', 'default', adt(en, 'ReadyCache', 'ready_cache::cache'), [])

    def extra_ops(self, en, st):
        if not st.g['w']:
            return []
        eps = self.mon(st, self.EP, ())
        out = [('pp', 0)]
        for k in self.keys:
            if len(eps) < self.max_live:
                out.append(('push', 0, k))
            if any(e[0] == k for e in eps) or k == 'a':
                out += [('evict', 0, k), ('check', 0, k)]
        out += [('checki', 0, n) for n in range(1 + sum(1 for e in eps if e[2] == 'ready'))]
        ck = self.mon(st, self.CK)
        if ck:
            out.append(('call' + ck[0], 0, ck[1]))
        return out

    def key(self, st, k):
        return ('r', st.new(('s', ('key', k))), ())

    def m(self, en, st, method, *args):
        return new(en, st, 'ReadyCache', method, [st.g['w'][0][1]] + list(args), module='ready_cache::cache')

    def cxr(self, st):
        st.g['cur'] = 'cur'
        return ('r', st.new(lib('Cx', sym('waker', 'cur'))), ())

    def apply(self, en, st, op):
        k = op[0]
        eps = self.mon(st, self.EP, ())
        if k[:4] != 'call':
            self.setmon(st, self.CK, None)
        st.g['inop'] = k
        if k == 'pp':
            return self.m(en, st, 'poll_pending', self.cxr(st))
        if k == 'push':
            L = ('svc', op[2], st.fresh())
            self.setmon(st, self.EP, tuple(e for e in eps if not (e[0] == op[2] and e[2] == 'pend')) + ((op[2], L, 'pend'),))
            return self.m(en, st, 'push', ('s', ('key', op[2])), ('s', L))
        if k == 'evict':
            self.setmon(st, self.EP, tuple(e for e in eps if e[0] != op[2]))
            st.g['had'] = any(e[0] == op[2] for e in eps)
            return self.m(en, st, 'evict', self.key(st, op[2]))
        if k == 'check':
            return self.m(en, st, 'check_ready', self.cxr(st), self.key(st, op[2]))
        if k == 'checki':
            return self.m(en, st, 'check_ready_index', self.cxr(st), I(op[2]))
        rq = ('s', ('req', st.fresh()))
        st.g['rq'] = lv(rq)
        if k == 'callk':
            r = self.m(en, st, 'call_ready', self.key(st, op[2]), rq)
        else:
            r = self.m(en, st, 'call_ready_index', I(op[2]), rq)
        out = []
        for s, f in r:
            o = s.new(f)
            for s2 in en.drop_at(s, o, ()):
                s2.heap.pop(o, None)
                out.append((s2, f))
        return out

    def event(self, en, st, kind, a):
        k = st.g.get('inop')
        if k is None or st.g.get('mute'):
            return
        eps = self.mon(st, self.EP, ())
        if kind == 'svc.ready':
            self.oblige(en, 'endpoint polled')
            L, x = a
            mine = [e for e in eps if e[1] == L]
            if not mine:
                self.bad(en, st, 'polled-after-removal', 'a service which was evicted, replaced or has failed was polled', k)
                return
            e = mine[0]
            if (e[2] == 'pend') != (k == 'pp'):
                self.bad(en, st, 'polled-in-wrong-set', 'a %s service was polled by %s' % (e[2], k), k)
            if x == 'F':
                self.setmon(st, self.EP, tuple(y for y in eps if y is not e))
            elif x == 'R' and e[2] == 'pend':
                self.setmon(st, self.EP, tuple(y if y is not e else (e[0], L, 'ready') for y in eps if y is e or y[0] != e[0]))
            elif x == 'P' and e[2] == 'ready':
                if any(y[0] == e[0] and y[2] == 'pend' for y in eps):
                    self.setmon(st, self.EP, tuple(y for y in eps if y is not e))
                else:
                    self.setmon(st, self.EP, tuple(y if y is not e else (e[0], L, 'pend') for y in eps))
        elif kind == 'svc.call':
            self.oblige(en, 'dispatch')
            L = a[0]
            ck = self.mon(st, self.CK)
            mine = [e for e in eps if e[1] == L]
            if not mine or not ck or ck[2] != L:
                self.bad(en, st, 'wrong-service-called', 'the request went to a service which is not the one that was checked', k)
            if lv(a[1]) != st.g.get('rq'):
                self.bad(en, st, 'request-changed', 'the request was not passed on unaltered', k)
            for e in mine:
                if any(y[0] == e[0] and y[2] == 'pend' for y in eps):
                    self.setmon(st, self.EP, tuple(y for y in eps if y is not e))
                else:
                    self.setmon(st, self.EP, tuple(y if y is not e else (e[0], L, 'pend') for y in eps))
        elif kind == 'drop' and any(e[1] == a[0] for e in eps):
            self.bad(en, st, 'service-lost', 'a service which was neither evicted, replaced nor failed was dropped', k)
            self.setmon(st, self.EP, tuple(e for e in eps if e[1] != a[0]))

    def after(self, en, st, op, slot, res):
        k = op[0]
        st.g.pop('inop', None)
        eps = self.mon(st, self.EP, ())
        ev = self.evs(st, 'svc.ready', 'svc.call')
        self.oblige(en, k)
        if k == 'pp':
            sh, val = shape(res)
            fl = [e for e in ev if e[2] == 'F']
            if sh == 'err':
                n = nl(st, val)
                if not fl or n[:2] != ('adt', 'Failed') or n[3:] != (('key', fl[-1][1][1]), ('rderr', nl(st, fl[-1][1]))):
                    self.bad(en, st, 'wrong-failure', 'poll_pending failed with %s' % show(n), k)
            elif fl:
                self.bad(en, st, 'failure-hidden', 'a service failed but poll_pending answered %s' % sh, k)
            if sh == 'ok' and any(e[2] == 'pend' for e in eps):
                self.bad(en, st, 'pending-forgotten', 'poll_pending answered that nothing is pending although a service is', k)
            if sh == 'P':
                if not any(e[2] == 'pend' for e in eps):
                    self.bad(en, st, 'pending-without-services', 'poll_pending is pending although no service is', k)
                elif not st.g.get('reg'):
                    en.violate(st, 'wake', 'pending-without-wakeup', 'poll_pending returned Pending and no pending source was given the caller\'s waker', 'ReadyCache::poll_pending')
                for e in eps:
                    if e[2] == 'pend' and st.ts.get(e[1]) != 'P':
                        self.bad(en, st, 'not-driven', 'poll_pending is pending although a pending service was not polled', k)
        elif k == 'evict':
            want = TRUE if st.g.pop('had') else FALSE
            if res in (TRUE, FALSE) and res != want:
                self.bad(en, st, 'wrong-evict-answer', 'evict answered %s' % ('true' if res == TRUE else 'false'), k)
        elif k in ('check', 'checki'):
            n = nl(st, res)
            if len(ev) > 1:
                self.bad(en, st, 'polled-twice', 'one check polled %d services' % len(ev), k)
            if not ev:
                if n != ('ok', FALSE):
                    self.bad(en, st, 'wrong-check', 'a check which polled nothing answered %s' % show(n), k)
                if (k == 'check' and any(e[0] == op[2] and e[2] == 'ready' for e in eps)) or (k == 'checki' and op[2] < sum(1 for e in eps if e[2] == 'ready')):
                    self.bad(en, st, 'not-checked', 'a service which is in the ready set was not polled', k)
            else:
                L, x = ev[0][1], ev[0][2]
                if k == 'check' and L[1] != op[2]:
                    self.bad(en, st, 'wrong-service-checked', 'the service of another key was polled', k)
                if x == 'F':
                    if n[0] != 'err' or n[1][:2] != ('adt', 'Failed') or n[1][3:] != (('key', L[1]), ('rderr', nl(st, L))):
                        self.bad(en, st, 'wrong-failure', 'a failed service was reported as %s' % show(n), k)
                elif n != ('ok', TRUE if x == 'R' else FALSE):
                    self.bad(en, st, 'wrong-check', 'a service which answered %s was reported as %s' % (x, show(n)), k)
                elif x == 'R':
                    self.setmon(st, self.CK, ('k' if k == 'check' else 'i', op[2], L))
        elif k[:4] == 'call':
            if len([e for e in ev if e[0] == 'svc.call']) != 1:
                self.bad(en, st, 'not-exactly-once', 'the request was dispatched %d times' % len(ev), k)
            st.g.pop('rq', None)
            self.setmon(st, self.CK, None)
        if slot is not None and k != 'drop':
            self.observe(en, st, eps, k)

    def access(self, en, s, eps):
        """the other ways to reach the ready services"""
        have = {e[0]: e[1] for e in eps if e[2] == 'ready'}

        def read(s2, x):
            while x[0] in ('r', 'b'):
                x = s2.get(*s2.deref(x))
            return x

        def pair(s2, x):
            """(key, service) of a pair of references, None when it is not one"""
            if x[0] == 't' and len(x[1]) >= 2:
                kv = [read(s2, y) for y in x[1][-2:]]
                if kv[0][0] == kv[1][0] == 's' and kv[0][1][0] == 'key':
                    return kv[0][1][1], kv[1][1]
            return None
        for q in self.keys:
            for s2, r in self.m(en, (s3 := s.copy()), 'get_ready_mut', self.key(s3, q)):
                if r[0] != 'a' or r[1] != OPT:
                    continue
                if r[2] != (1 if q in have else 0):
                    return 'get_ready_mut of %s answers %s' % (q, 'a service' if r[2] else 'nothing')
                p = pair(s2, r[3][0]) if r[2] else None
                if p and p != (q, have[q]):
                    return 'get_ready_mut of %s answers %s' % (q, p)
        for m in ('get_ready_index', 'get_ready_index_mut'):
            got = set()
            for n in range(len(have) + 1):
                for s2, r in self.m(en, s.copy(), m, I(n)):
                    if r[0] != 'a' or r[1] != OPT:
                        return None
                    if r[2] != (1 if n < len(have) else 0):
                        return '%s of %d answers %s with %d ready services' % (m, n, 'a service' if r[2] else 'nothing', len(have))
                    p = pair(s2, r[3][0]) if r[2] else None
                    if p:
                        got.add(p)
                        if have.get(p[0]) != p[1]:
                            return '%s of %d answers %s' % (m, n, p)
            if len(got) not in (0, len(have)):
                return '%s reaches %d of %d ready services' % (m, len(got), len(have))
        for m in ('iter_ready', 'iter_ready_mut'):
            for s2, r in self.m(en, s.copy(), m):
                o, got = s2.new(r), []
                cur = s2
                for _ in range(len(have) + 2):
                    outs = en.call_trait(cur, None, 'core::iter::traits::iterator::Iterator', 'next', [('r', o, ())])
                    if len(outs) != 1 or outs[0][1][0] != 'a' or outs[0][1][1] != OPT or outs[0][0].taint:
                        return None
                    cur, x = outs[0]
                    if x[2] == 0:
                        break
                    got.append(pair(cur, x[3][0]))
                if None in got:
                    return None
                if sorted(got) != sorted(have.items()):
                    return '%s yields %s with %s ready' % (m, got, sorted(have.items()))
        return None

    def observe(self, en, st, eps, k):
        """what the accessors answer"""
        s = st.copy()
        en.mute += 1
        try:
            s.g['mute'] = 1
            nr = sum(1 for e in eps if e[2] == 'ready')
            for s2, r in self.m(en, s.copy(), 'ready_len'):
                if r[0] == 'i' and r != I(nr):
                    bad = 'ready_len is %s, %d services are ready' % (r[1], nr)
                    break
            else:
                bad = None
            one = lambda m: [r for _, r in self.m(en, s.copy(), m)]
            ln, pl, em = one('len'), one('pending_len'), one('is_empty')
            if len(ln) == len(pl) == len(em) == 1 and ln[0][0] == 'i' and pl[0][0] == 'i':
                if ln[0][1] != nr + pl[0][1] or pl[0][1] < len(eps) - nr:
                    bad = 'len is %s and pending_len %s with %d ready and %d pending services' % (ln[0][1], pl[0][1], nr, len(eps) - nr)
                elif em[0] in (TRUE, FALSE) and (em[0] == TRUE) != (ln[0][1] == 0):
                    bad = 'is_empty is %s with len %s' % (em[0] == TRUE, ln[0][1])
            for q in self.keys:
                for s2, r in self.m(en, (s3 := s.copy()), 'pending_contains', self.key(s3, q)):
                    if r in (TRUE, FALSE) and (r == TRUE) != any(e[0] == q and e[2] == 'pend' for e in eps):
                        bad = 'pending_contains is %s' % (r == TRUE)
                for s2, r in self.m(en, (s3 := s.copy()), 'get_ready', self.key(s3, q)):
                    want = [e[1] for e in eps if e[0] == q and e[2] == 'ready']
                    if r[0] == 'a' and r[1] == OPT:
                        got = []
                        if r[2] == 1:
                            x = r[3][0][1][2]
                            got = [lv(s2.get(x[1], x[2]))] if x[0] == 'r' else want
                        if got != want:
                            bad = 'get_ready yields %s instead of %s' % (got, want)
            bad = bad or self.access(en, s, eps)
        finally:
            en.mute -= 1
        if bad:
            self.bad(en, st, 'wrong-contents', bad, k)


def changes_of(en, L=('stream', 'disc'), keys=('a',)):
    """what discovery may announce"""
    ch = adt(en, 'Change')

    def items(st, L):
        if st.g.get('nit'):
            return ('P',)
        st.g['nit'] = 1
        out = ['P', None, lambda s: err(('s', ('discerr', s.fresh())))]
        out += [lambda s, k=k: ok(('a', ch, 0, (('s', ('key', k)), ('s', ('svc', k, s.fresh()))))) for k in keys]
        out += [ok(('a', ch, 1, (('s', ('key', k)),))) for k in keys]
        return tuple(out)
    return items


class Discovered(Wrap):
    """a stream of changes whose services are wrapped one by one"""
    prop = 'C33'
    roots = ('stream',)
    track = {'stream.poll', 'svc.ready', 'svc.call'}
    wraps = None

    def config(self, en):
        en.stream_items = changes_of(en)

    def wrapped(self, n, L):
        """is `n` the service L wrapped as documented?"""
        return n[:2] == ('adt', self.wraps) and len(find(n, lambda x: x == L)) == 1

    def spec_poll_next(self, en, st, slot, res):
        sh, v = shape(res)
        ev = self.evs(st, 'stream.poll')
        k = 'poll_next'
        if self.evs(st, 'svc.ready', 'svc.call'):
            self.bad(en, st, 'service-touched', 'a discovered service was used', k)
        items = [e for e in ev if e[2] == 'item']
        if len(items) > 1:
            self.bad(en, st, 'change-lost', '%d changes were taken and one answer given' % len(items), k)
        if not ev:
            if sh != 'P' and st.ts.get(('stream', 'disc')) != 'ended':
                self.bad(en, st, 'answer-without-asking', 'answered %s without polling discovery' % sh, k)
            return
        want = {'P': 'P', 'end': 'none', 'item': 'some'}[ev[-1][2]]
        if sh != want:
            self.bad(en, st, 'change-hidden', 'discovery answered %s but the wrapper %s' % (want, sh), k)
            return
        if sh != 'some':
            return
        i, n = nl(st, ev[-1][3]), nl(st, v)
        if i[0] != 'ok' or i[1][2] == 1:
            if n != i:
                self.bad(en, st, 'change-altered', '%s was announced as %s' % (show(i), show(n)), k)
            return
        if n[0] != 'ok' or n[1][:3] != ('adt', 'Change', 0) or n[1][3] != i[1][3] or not self.wrapped(n[1][4], i[1][4]):
            self.bad(en, st, 'change-altered', 'the insertion of %s was announced as %s' % (show(i[1][3:]), show(n)), k)


COMPLETE = ('a', 'tower::load::completion::CompleteOnResponse', 0, ())


@wrap('PendingRequestsDiscover', 'PendingRequestsDiscover', [sym('stream', 'disc'), sym('completion', 'c')], base=Discovered)
class _:
    wraps = 'PendingRequests'

    def wrapped(self, n, L):
        return Discovered.wrapped(self, n, L) and bool(find(n, lambda x: x == ('completion', 'c')))

    def spec_poll_next(self, en, st, slot, res):
        Discovered.spec_poll_next(self, en, st, slot, res)
        # nothing is pending on a new endpoint
        for w in find(res, lambda x: len(x) == 4 and x[0] == 'a' and type(x[1]) is str and x[1].endswith('::PendingRequests')):
            s = st.copy()
            o = s.new(w)
            en.mute += 1
            try:
                got = via(en, s, 'Load', 'load', adt(en, 'PendingRequests'), [('r', o, ())])
            finally:
                en.mute -= 1
            for s2, v in got:
                if v[0] == 'a' and len(v[3]) == 1 and v[3][0][0] == 'i' and v[3][0][1] != 0:
                    self.bad(en, st, 'shared-count', 'a new endpoint has a load of %d' % v[3][0][1], 'poll_next')


@wrap('PeakEwmaDiscover', 'PeakEwmaDiscover', [sym('stream', 'disc'), sym('dur', 'rtt'), sym('dur', 'decay'), sym('completion', 'c')], base=Discovered)
class _:
    wraps = 'PeakEwma'
    allow_panics = ('must be positive',)      # documented preconditions

    def wrapped(self, n, L):
        return Discovered.wrapped(self, n, L) and bool(find(n, lambda x: x == ('completion', 'c')))


@wrap('ConstantDiscover', 'Constant', [sym('stream', 'disc'), sym('load', 'm')], base=Discovered)
class _:
    wraps = 'Constant'

    def wrapped(self, n, L):
        return n == ('adt', 'Constant', 0, L, ('load', 'm'))


@comp
class ServiceList(Wrap):
    """every service of the list is announced once, in order, under its position"""
    name = 'ServiceList'
    prop = 'C33'
    roots = ('stream',)
    N = 3

    def build(self, en, st):
        return new(en, st, 'ServiceList', 'new', [('a', 'lib:Vec', 0, tuple(svc('s%d' % i) for i in range(self.N)))])

    def spec_poll_next(self, en, st, slot, res):
        sh, v = shape(res)
        n = self.mon(st, slot[3], 0)
        if sh == 'P':
            self.bad(en, st, 'pending-list', 'a list of services was pending', 'poll_next')
        elif sh == 'none':
            if n != self.N:
                self.bad(en, st, 'service-lost', 'the list ended after %d of %d services' % (n, self.N), 'poll_next')
        elif sh == 'some':
            got = nl(st, v)
            if n >= self.N or got != ('ok', ('adt', 'Change', 0, ('i', n), ('svc', 's%d' % n))):
                self.bad(en, st, 'change-altered', 'announcement %d is %s' % (n, show(got)), 'poll_next')
            self.setmon(st, slot[3], n + 1)


# ---- make services


class Made(Wrap):
    prop = 'C34'


def adapter(method):
    """MakeService::into_service / as_service of a service"""
    def build(self, en, st):
        ks = [k for k, f in en.F.fns.items() if f["crate"] == 'tower' and f["name"] == method and f["path"].endswith('MakeService::' + method)]
        if not ks:
            raise CheckError('MakeService::%s not found' % method)
        x = svc('mk')
        if method == 'as_service':
            x = ('r', st.new(x), ())
        return en.run_body(st, en.C.body(ks[0]), [x])
    return build


@comp
class IntoService(Made):
    name = 'IntoService'
    clone, handles = True, 2
    build = adapter('into_service')


@comp
class AsService(Made):
    name = 'AsService'
    build = adapter('as_service')


@wrap('Shared', 'Shared', [sym('tpl', 's')], base=Made, **two())
class _:
    """every request is answered at once with a clone of the service"""

    def config(self, en):
        en.fresh_clone = set(en.fresh_clone) | {'tpl'}

    def spec_poll_ready(self, en, st, slot, res):
        if shape(res)[0] != 'ok':
            self.bad(en, st, 'not-ready', 'Shared is not ready', 'poll_ready')

    def spec_call(self, en, st, slot, res):
        pass

    def spec_poll(self, en, st, slot, res):
        sh, v = shape(res)
        n = nl(st, v)
        if sh != 'ok' or n[0] != 'tpl':
            self.bad(en, st, 'wrong-service', 'the service made is %s' % (show(n) if n else sh), 'poll')


@wrap('MakeBalance', 'MakeBalance', [svc('mk')], base=Made, **two())
class _:
    """a balancer over exactly the discovery that was made"""

    def result(self, en, st, slot, v, F):
        n = nl(st, v)
        if n[0] == 'err':
            if F is None or n != ('err', ('errof', F)):
                self.bad(en, st, 'error-changed', 'the error is %s' % show(n), 'poll')
            return
        if n[0] != 'ok' or n[1][:2] != ('adt', 'Balance') or F is None or find(n, lambda x: x == ('okof', F)) != [('okof', F)]:
            self.bad(en, st, 'wrong-balancer', 'the service made is %s' % show(n), 'poll')


# ---- choices and functions


def either(n):
    def build(self, en, st):
        return [(st, ('a', adt(en, 'Either'), n, (svc(),)))]
    return build


@comp
class EitherLeft(Wrap):
    name = 'EitherLeft'
    clone, handles = True, 2
    build = either(0)


@comp
class EitherRight(EitherLeft):
    name = 'EitherRight'
    build = either(1)


@comp
class ServiceFn(Wrap):
    """a function as a service: always ready, one application per request"""
    name = 'ServiceFn'
    clone, handles = True, 2

    def build(self, en, st):
        return free_fn(en, st, 'service_fn', [FN])

    def spec_poll_ready(self, en, st, slot, res):
        if shape(res)[0] != 'ok':
            self.bad(en, st, 'not-ready', 'a function service is not ready', 'poll_ready')

    def spec_call(self, en, st, slot, res):
        ev = self.evs(st, 'fn.call')
        n, rq = st.g['newreq']
        if len(ev) != 1 or nl(st, ev[0][2][0]) != nl(st, rq) or nl(st, res) != app(nl(st, rq)):
            self.bad(en, st, 'not-one-application', 'the function was applied %d times' % len(ev), 'call')

    def spec_poll(self, en, st, slot, res):
        pass


class MockPair(Wrap):
    """tower-test: the service half against a client, the handle half against a test"""
    prop = 'C32'
    clone = True
    handles = 2
    futs = 2
    own_waker = True
    wake = False
    poll_after_err = True
    eager = False
    prop_only = True
    max_states = 40000
    clones = 1
    waiting = 1
    allowances = (0, 1)
    errors = True
    ERR, REM, CLONES, Q, GONE = ('err',), ('rem',), ('clones',), ('q',), ('gone',)
    track = {'wake', 'mpsc.recv'}

    def build(self, en, st):
        out = []
        st.g['mon'] = ((self.REM, 'inf'),)
        for s, r in free_fn(en, st, 'pair', [], 'tower_test'):
            out.append((s, [('svc', r[1][0]), ('hnd', r[1][1])]))
        return out

    def inh(self, en, ty, name):
        k = adt(en, ty, 'mock', 'tower_test')
        keys = en.F.inherent.get((k, name))
        if not keys:
            raise CheckError('%s::%s not found' % (ty, name))
        return en.C.body(keys[0])

    def slot_of(self, st, kind):
        return [(i, s) for i, s in enumerate(st.g['w']) if s[0] == kind]

    def may_unready(self, en, st):
        return False

    def extra_ops(self, en, st):
        out = []
        for i, s in self.slot_of(st, 'hnd'):
            out += [('allow', i, n) for n in self.allowances] + [('drop_handle', i)]
            if self.errors:
                out.append(('send_error', i))
            if len(self.slot_of(st, 'rsp')) < 2:
                out += [('poll_request', i), ('next_request', i)]
        for i, s in self.slot_of(st, 'rsp'):
            out += [('send_response', i), ('fail_response', i), ('drop_response', i)]
        return out

    def keep(self, st, kind, a):
        return True

    def before(self, en, st, op):
        st.g['pre'] = tuple((s[3], s[2]) for s in st.g['w'] if s[0] == 'svc')

    def inop(self, st):
        return st.g['w'][st.g['opi']]

    def apply(self, en, st, op):
        k, i = op[0], op[1]
        slot = st.g['w'][i]
        ref = slot[1]
        if k == 'allow':
            return en.run_body(st, self.inh(en, 'Handle', 'allow'), [ref, I(op[2])])
        if k == 'send_error':
            e = sym('boxerr', 'sent')
            return en.run_body(st, self.inh(en, 'Handle', 'send_error'), [ref, e])
        if k == 'poll_request':
            return en.run_body(st, self.inh(en, 'Handle', 'poll_request'), [ref])
        if k == 'next_request':
            out = []
            for s, f in en.run_body(st, self.inh(en, 'Handle', 'next_request'), [ref]):
                o = s.new(f)
                s.g['cur'] = 'test'
                cx = ('r', s.new(lib('Cx', sym('waker', 'test'))), ())
                for s2, r in en.call_trait(s, None, 'core::future::future::Future', 'poll', [pin(('r', o, ())), cx]):
                    for s3 in en.drop_at(s2, o, ()):
                        s3.heap.pop(o, None)
                        s3.g.pop('cur', None)
                        out.append((s3, r))
            return out
        if k == 'drop_handle':
            return [(s, UNIT) for s in en.drop_at(st, ref[1], ref[2])]
        v = st.get(ref[1], ref[2])
        if k == 'send_response':
            return en.run_body(st, self.inh(en, 'SendResponse', 'send_response'), [v, sym('resp', slot[5])])
        if k == 'fail_response':
            return en.run_body(st, self.inh(en, 'SendResponse', 'send_error'), [v, sym('boxerr', 'for', slot[5])])
        if k == 'drop_response':
            return [(s, UNIT) for s in en.drop_at(st, ref[1], ref[2])]

    def gone(self, st):
        return not self.slot_of(st, 'hnd')

    def after(self, en, st, op, slot, res):
        self.oblige(en, op[0])
        getattr(self, 'on_' + op[0])(en, st, op, slot, res)
        # the allowance counter is unbounded by default: requests never bring it near zero
        for o, v in list(st.heap.items()):
            n = big(v)
            if n is not v:
                st.heap[o] = n
        self.prune(st)

    def prune(self, st):
        # nothing here depends on what a polled future or a failed handle remembers of it, nor on the order of the slots
        order = {'svc': 0, 'fut': 1, 'rsp': 2, 'hnd': 3}
        st.g['w'] = tuple(sorted(((x[:2] + ('L',) + x[3:]) if x[0] == 'fut' and x[2] == 'P' else (x[:2] + ('N',) + x[3:]) if x[2] == 'F' else x
                                  for x in st.g['w']), key=lambda x: order[x[0]]))
        d = dict(st.g.get('mon', ()))
        keys = [self.ERR, self.REM, self.CLONES, self.Q] + [s[3] for s in st.g['w']] + [('task', s[3]) for s in st.g['w'] if s[2] == 'P']
        if self.gone(st):
            for x in d.get(self.Q, ()):
                d[x] = 'closed'
            keys = [self.CLONES] + keys[4:]
        st.g['mon'] = tuple((k, d[k]) for k in keys if d.get(k) is not None and (d[k] or k[0] == 'task'))

    # -- service half
    def on_poll_ready(self, en, st, op, slot, res):
        sh, val = shape(res)
        if self.gone(st):
            if sh != 'err' or nl(st, val)[:2] != ('adt', 'Closed'):
                self.bad(en, st, 'closed-hidden', 'poll_ready returned %s although the handle was dropped' % sh, 'poll_ready')
            return
        e = self.mon(st, self.ERR)
        if e:
            self.setmon(st, self.ERR, 0)
            if slot[2] == 'R':
                # the grant outlives the error
                self.setmon(st, slot[3], 'granted')
            if sh != 'err' or nl(st, val) != ('boxerr', 'sent'):
                self.bad(en, st, 'error-not-delivered', 'poll_ready returned %s although the test asked for an error' % sh, 'poll_ready')
            return
        if slot[2] == 'R' or self.mon(st, self.REM) or self.mon(st, slot[3]) == 'granted':
            if sh != 'ok':
                self.bad(en, st, 'not-ready', 'poll_ready returned %s although the test allows requests' % sh, 'poll_ready')
        elif sh == 'P':
            self.setmon(st, ('task', slot[3]), self.waker(st, slot[3])[2])
        else:
            self.bad(en, st, 'allowance-exceeded', 'poll_ready returned %s although no request is allowed' % sh, 'poll_ready')

    def on_call(self, en, st, op, slot, res):
        n, rq = st.g['newreq']
        if self.gone(st):
            self.setmon(st, n, 'closed')
            return
        self.setmon(st, slot[3], 0)
        r = self.mon(st, self.REM)
        if r and r != 'inf':
            self.setmon(st, self.REM, r - 1)
        self.setmon(st, self.Q, self.mon(st, self.Q, ()) + (n,))
        self.setmon(st, n, 'open')

    def can_call(self, en, st, slot):
        return len(self.mon(st, self.Q, ())) + len(self.slot_of(st, 'rsp')) < self.waiting

    def can_clone(self, en, st):
        # the code numbers its clones: only so many of them in a history are explored
        return self.mon(st, self.CLONES, 0) < self.clones

    def on_clone(self, en, st, op, slot, res):
        self.setmon(st, self.CLONES, self.mon(st, self.CLONES, 0) + 1)

    def on_poll(self, en, st, op, slot, res):
        sh, val = shape(res)
        m = self.mon(st, slot[3])
        if m == 'open' and self.gone(st) and slot[3] in self.mon(st, self.Q, ()):
            m = 'closed'
        want = {'open': 'P', 'closed': 'err', 'ok': 'ok', 'err': 'err'}[m]
        if sh != want:
            self.bad(en, st, 'wrong-answer', 'the response future returned %s although the request %s' % (
                sh, {'open': 'was not answered', 'closed': 'can no longer be answered', 'ok': 'was answered', 'err': 'was failed'}[m]), 'poll')
            return
        v = nl(st, val) if sh != 'P' else None
        if m == 'closed' and v[:2] != ('adt', 'Closed') or m == 'ok' and v != ('resp', slot[3]) or m == 'err' and v != ('boxerr', 'for', slot[3]):
            self.bad(en, st, 'wrong-answer', 'the response future returned %s' % show(v), 'poll')

    def on_drop(self, en, st, op, slot, res):
        pass

    # -- test half
    def waker(self, st, sid):
        # two polls in a row come from different tasks
        return ('w', sid, 1 - self.mon(st, ('task', sid), 1))

    def woken(self, en, st, k):
        w = {e[1] for e in st.g.get('op', ()) if e[0] == 'wake'}
        for s in st.g['w']:
            if s[0] == 'svc' and s[2] == 'P' and ('waker', ('w', s[3], self.mon(st, ('task', s[3]), 0))) not in w:
                self.bad(en, st, 'lost-wakeup', 'a task waiting for readiness is not woken by %s' % k, k)
        # a woken task has to ask again
        st.g['w'] = tuple((s[:2] + ('N',) + s[3:]) if s[0] == 'svc' and s[2] == 'P' else s for s in st.g['w'])

    def on_allow(self, en, st, op, slot, res):
        self.setmon(st, self.REM, op[2])
        if op[2]:
            self.woken(en, st, 'allow')

    def on_send_error(self, en, st, op, slot, res):
        self.setmon(st, self.ERR, 1)
        self.woken(en, st, 'send_error')

    def on_drop_handle(self, en, st, op, slot, res):
        st.heap.pop(slot[1][1], None)
        Driver_set(st, op[1])
        self.woken(en, st, 'drop')

    def on_poll_request(self, en, st, op, slot, res):
        sh, val = shape(res)
        q = self.mon(st, self.Q, ())
        want = 'some' if q else ('none' if not self.slot_of(st, 'svc') else 'P')
        if sh != want:
            self.bad(en, st, 'request-lost', '%s returned %s with %d requests waiting' % (op[0], sh, len(q)), op[0])
            return
        if sh != 'some':
            return
        rq, sr = val[1]
        if nl(st, rq) != ('req', q[0]):
            self.bad(en, st, 'wrong-request', 'the test received %s' % show(nl(st, rq)), op[0])
        self.setmon(st, self.Q, q[1:])
        # the tuple is dropped by the driver: keep the answer half in a slot of its own
        o = st.new(sr)
        st.g['w'] = st.g['w'] + (('rsp', ('r', o, ()), 'L', st.fresh(), frozenset(), q[0]),)

    on_next_request = on_poll_request

    def finish(self, en, st, op, slot, what):
        if self.mon(st, slot[5]):
            self.setmon(st, slot[5], what)
        st.heap.pop(slot[1][1], None)
        Driver_set(st, op[1])

    def on_send_response(self, en, st, op, slot, res):
        self.finish(en, st, op, slot, 'ok')

    def on_fail_response(self, en, st, op, slot, res):
        self.finish(en, st, op, slot, 'err')

    def on_drop_response(self, en, st, op, slot, res):
        self.finish(en, st, op, slot, 'closed')


@comp
class MockReady(MockPair):
    """readiness: two service handles against every use of allow, send_error and drop"""
    name = 'MockReady'
    handles = 2
    futs = 1

    def thorough(self):
        self.clones = 2
        self.allowances = (0, 1, 2)


@comp
class MockClones(MockPair):
    """waiting clones, and clones of clones"""
    name = 'MockClones'
    handles = 3
    clones = 2
    futs = 0
    errors = False

    def thorough(self):
        self.clones = 3
        self.errors = True


@comp
class MockRequests(MockPair):
    """delivery: several requests in flight, answered in any order"""
    name = 'MockRequests'
    handles = 1
    clone = False
    futs = 2
    waiting = 2
    allowances = ()
    errors = False

    def thorough(self):
        self.futs = 3
        self.waiting = 3
        self.handles = 2
        self.clone = True
        self.allowances = (1,)


@comp
class MockSpawn(Wrap):
    """tower_test::mock::Spawn: a service together with the task it is polled from"""
    name = 'MockSpawn'
    prop = 'C32'
    prop_only = True
    methods = True
    clone = True
    handles = 2

    def build(self, en, st):
        return new(en, st, 'Spawn', 'new', [svc()], 'mock', 'tower_test')

    def method(self, en, st, name, args):
        k = adt(en, 'Spawn', 'mock', 'tower_test')
        keys = en.F.inherent.get((k, name))
        if not keys:
            raise CheckError('tower_test::mock::Spawn::%s not found' % name)
        return en.run_body(st, en.C.body(keys[0]), args)


def Driver_set(st, i):
    w = list(st.g['w'])
    del w[i]
    st.g['w'] = tuple(w)


def big(v):
    """numbers near u64::MAX are one value"""
    if type(v) is not tuple or not v:
        return v
    if v[0] == 'i' and len(v) == 2 and type(v[1]) is int and v[1] > 1 << 63:
        return v if v[1] == (1 << 64) - 1 else ('i', (1 << 64) - 1)
    n = tuple(big(x) if type(x) is tuple else x for x in v)
    return v if all(a is b for a, b in zip(n, v)) else n
