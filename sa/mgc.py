"""Most-general-client driver.

For one component the driver starts from the object its public constructor
builds and applies, in every order, every public operation a contract-abiding
client (and the executor, for spawned workers) may perform, until the set of
abstract states is closed under them (a fixpoint, no depth bound).  The bounds
are on the configuration (number of handles / in-flight futures / keys), not on
the length of the history.
"""
import os, pickle, time
import multiprocessing as mp
from collections import deque
from .engine import (State, Violation, UNIT, TOP, UNDEF, I, TRUE, FALSE, OPT, RES, POLL, PIN, lib, sym, lv, pin, canon, Limit, CheckError, NONE, some, ok, err)

SVC = 'tower_service::Service'
FUT = 'core::future::future::Future'
STREAM = 'futures_core::stream::Stream'
LOAD = 'tower::load::Load'
CLONE = 'core::clone::Clone'

POLLOPS = ('poll_ready', 'poll', 'poll_next', 'task')


class Comp:
    """one component under analysis: how it is built and which client may use it"""
    name = ''
    handles = 1          # max. simultaneously live service handles (clones)
    futs = 1             # max. simultaneously live response futures
    clone = False
    drop_handles = True
    drop_futs = True
    clone_ready = True   # also clone handles which hold readiness
    poll_after_err = False
    own_waker = False    # each handle is polled from its own task
    call_any = False     # requests are documented to be fine without readiness
    methods = False      # poll_ready and call are methods of its own, not of Service
    wake = True          # apply the lost wake-up rule
    max_states = 6000
    cost = 1
    prop_only = False    # runs only in checks which name it
    track = ()           # events recorded for `after` in st.g['op']
    roots = ('svc',)
    passes_load = False  # its load is that of the service it wraps
    inner = ('in',)      # names of the wrapped services
    auto_drop = True     # a completed future is dropped at once
    drop_call = False    # response futures are dropped at once
    allow_panics = ()
    max_tasks = 2
    max_out = 2          # requests of a stream which are outstanding at once

    def config(self, en):
        pass

    def build(self, en, st):
        raise NotImplementedError

    def thorough(self):
        """deeper bounds"""

    def event(self, en, st, kind, a):
        pass

    def after(self, en, st, op, slot, res):
        pass

    def keep(self, st, kind, a):
        """is this event recorded in the operation's log?"""
        return True

    def req(self, en, st, sid):
        return ('s', ('req', sid))

    def before(self, en, st, op):
        pass

    def extra_ops(self, en, st):
        return ()

    def apply(self, en, st, op):
        raise NotImplementedError

    def can_call(self, en, st, slot):
        return True

    def can_clone(self, en, st):
        return True

    def final(self, en, states):
        pass

    def may_unready(self, en, st):
        """did this operation see a documented reason to take readiness back?"""
        return False

    def may_hang(self, en, st):
        """no source is left which could ever make progress possible"""
        return False



def merge(a, b):
    """add the counters of one engine run to another's"""
    for k, v in b.items():
        if type(v) is set:
            a.setdefault(k, set()).update(v)
        elif type(v) is dict:
            d = a.setdefault(k, {})
            for x, n in v.items():
                d[x] = d.get(x, 0) + n
        elif type(v) in (int, float):
            a[k] = a.get(k, 0) + v


def shape(r):
    """P | ok | err | R (ready with a non-Result) | none | some of a poll result, plus its payload"""
    if r[0] != 'a' or r[1] != POLL:
        return '?', r
    if r[2] == 1:
        return 'P', None
    v = r[3][0]
    if v[0] == 'a' and v[1] == RES:
        return ('ok', 'err')[v[2]], v[3][0]
    if v[0] == 'a' and v[1] == OPT:
        return ('none', 'some')[v[2]], (v[3][0] if v[2] == 1 else None)
    return 'R', v


class Driver:
    def __init__(self, en, comp):
        self.en = en
        self.comp = comp
        self.nstates = 0
        self.nops = 0
        self.nwake = 0
        self.npend = 0
        self.truncated = False
        self.opkinds = {}
        self.tainted = 0
        self.results = {}
        self.probe = False
        self.naccess = 0

    # -- world helpers
    @staticmethod
    def slots(st):
        return st.g['w']

    @staticmethod
    def set_slot(st, i, sl):
        w = list(st.g['w'])
        if sl is None:
            del w[i]
        else:
            w[i] = sl
        st.g['w'] = tuple(w)

    def add_slot(self, st, kind, v, status, extra=()):
        o = st.new(v)
        sid = st.fresh()
        st.g['w'] = st.g['w'] + ((kind, ('r', o, ()), status, sid, frozenset(), extra),)
        return sid

    def cx(self, st, who='cur'):
        st.g['cur'] = who
        return ('r', st.new(lib('Cx', sym('waker', who))), ())

    # -- operations
    def who(self, st, sid):
        return self.comp.waker(st, sid) if self.comp.own_waker else 'cur'

    def ops(self, st):
        c = self.comp
        w = st.g['w']
        nsvc = sum(1 for s in w if s[0] == 'svc')
        nfut = sum(1 for s in w if s[0] in ('fut',))
        out = []
        for i, s in enumerate(w):
            k, ref, status, sid, reg, ex = s
            if k == 'svc':
                if status != 'F' or c.poll_after_err:
                    out.append(('poll_ready', i))
                if (status == 'R' or c.call_any) and nfut < c.futs and c.can_call(self.en, st, s):
                    out.append(('call', i))
                if c.clone and nsvc < c.handles and (c.clone_ready or status != 'R') and c.can_clone(self.en, st):
                    out.append(('clone', i))
                if c.drop_handles:
                    out.append(('drop', i))
            elif k == 'fut':
                if status != 'D':
                    out.append(('poll', i))
                if c.drop_futs or status == 'D':
                    out.append(('drop', i))
            elif k == 'stream':
                if status != 'D':
                    out.append(('poll_next', i))
                out.append(('drop', i))
        for n, t in enumerate(st.g.get('tasks', ())):
            if t[1] in st.heap and st.heap[t[1]][3][1] == I(0):
                out.append(('task', n))
        out.extend(c.extra_ops(self.en, st))
        return out

    def raw(self, st, op):
        """perform one operation on `st`; [(state, result)] (world bookkeeping not yet applied)"""
        en = self.en
        k = op[0]
        st.g['reg'] = frozenset()
        st.g['regother'] = frozenset()
        st.g.pop('quiet', None)
        st.g.pop('woke', None)
        st.g.pop('nit', None)
        st.g.pop('spin', None)
        st.g.pop('revoked', None)
        if self.comp.track:
            st.g['op'] = ()
        if k == 'task':
            t = st.g['tasks'][op[1]]
            cx = self.cx(st, 'task')
            r = pin(('r', t[1], (0,)))
            return en.call_trait(st, None, FUT, 'poll', [r, cx])
        if k in ('poll_ready', 'call', 'clone', 'drop', 'poll', 'poll_next'):
            kind, ref, status, sid, reg, ex = st.g['w'][op[1]]
            st.g['who'] = sid
            if k == 'poll_ready':
                if self.comp.methods:
                    return self.comp.method(en, st, 'poll_ready', [ref])
                return en.call_trait(st, None, SVC, 'poll_ready', [ref, self.cx(st, self.who(st, sid))])
            if k == 'call':
                fs = st.fresh()
                rq = self.comp.req(en, st, fs)
                st.g['newfut'] = st.g['newreq'] = (fs, lv(rq))
                st.g['who'] = fs
                if self.comp.methods:
                    return self.comp.method(en, st, 'call', [ref, rq])
                return en.call_trait(st, None, SVC, 'call', [ref, rq])
            if k == 'clone':
                from .models import clone_via
                v = st.get(ref[1], ref[2])
                return clone_via(en, st, v, ref)
            if k == 'poll':
                return en.call_trait(st, None, FUT, 'poll', [pin(ref), self.cx(st)])
            if k == 'poll_next':
                return en.call_trait(st, None, STREAM, 'poll_next', [pin(ref), self.cx(st)])
            if k == 'drop':
                outs = en.drop_at(st, ref[1], ref[2])
                return [(s, UNIT) for s in outs]
        return self.comp.apply(en, st, op)

    def settle(self, st, op, res):
        """world bookkeeping after an operation; returns [state]"""
        en = self.en
        k = op[0]
        c = self.comp
        w = st.g['w']
        slot = w[op[1]] if k not in ('task',) and len(op) > 1 and type(op[1]) is int and op[1] < len(w) else None
        st.g.pop('cur', None)
        outs = [st]
        reg = st.g.get('reg', frozenset())
        if k in ('poll_ready', 'poll', 'poll_next', 'task'):
            sh, val = shape(res)
            if sh == '?':
                en.taint(st, 'result-shape')
            key = k + ':' + sh
            self.results[key] = self.results.get(key, 0) + 1
            if sh == 'P':
                self.npend += 1
                if c.wake and not reg and not c.may_hang(en, st):
                    other = st.g.get('regother')
                    en.violate(st, 'wake', 'pending-without-wakeup', '%s returned Pending and no pending source was given the caller\'s waker%s' % (
                        k, '' if not other else ' (polled with another context: %s)' % sorted({x[0][0] for x in other})), self.entry(k, slot, st))
        if k == 'poll_ready':
            sh, val = shape(res)
            if sh == 'P' and slot[2] == 'R' and not st.g.get('revoked') and not c.may_unready(en, st):
                en.violate(st, 'stable', 'readiness-revoked', 'poll_ready returned Pending although it had returned Ready(Ok) and no request was dispatched since', self.entry(k, slot, st))
            nst = {'P': 'P', 'ok': 'R', 'err': 'F'}.get(sh, 'N')
            self.set_slot(st, op[1], (slot[0], slot[1], nst, slot[3], reg if sh == 'P' else frozenset(), slot[5]))
        elif k == 'call':
            self.set_slot(st, op[1], (slot[0], slot[1], 'N', slot[3], frozenset(), slot[5]))
            fs, rq = st.g.pop('newfut')
            o = st.new(res)
            if c.drop_call:
                outs = en.drop_at(st, o, ())
                for s in outs:
                    s.heap.pop(o, None)
                return outs, slot
            st.g['w'] = st.g['w'] + (('fut', ('r', o, ()), 'L', fs, frozenset(), (slot[3], rq)),)
        elif k == 'clone':
            self.add_slot(st, slot[0], res, 'N' if slot[2] != 'F' else 'F', slot[5])
        elif k in ('poll', 'poll_next'):
            sh, val = shape(res)
            done = sh != 'P' and not (k == 'poll_next' and sh in ('some',))
            self.set_slot(st, op[1], (slot[0], slot[1], 'D' if done else ('P' if sh == 'P' else 'L'), slot[3], reg if sh == 'P' else frozenset(), slot[5]))
            if done and c.auto_drop:
                outs = en.drop_at(st, slot[1][1], ())
                for s in outs:
                    s.heap.pop(slot[1][1], None)
                    self.set_slot(s, op[1], None)
        elif k == 'drop':
            st.heap.pop(slot[1][1], None)
            self.set_slot(st, op[1], None)
        elif k == 'task':
            t = st.g['tasks'][op[1]]
            sh, val = shape(res)
            if sh != 'P' and t[1] in st.heap:
                outs = en.drop_at(st, t[1], (0,))
                for s in outs:
                    h = s.heap[t[1]]
                    s.heap[t[1]] = ('a', h[1], 0, (UNDEF, I(1), res[3][0] if sh != '?' else TOP))
            self.set_task_reg(st, op[1], reg if sh == 'P' else frozenset())
        return outs, slot

    def set_task_reg(self, st, n, reg):
        pass

    def entry(self, k, slot, st):
        return '%s::%s' % (self.comp.name, k)

    def gc_tasks(self, st):
        ts = st.g.get('tasks')
        if ts:
            keep = tuple(t for t in ts if t[1] in st.heap and st.heap[t[1]][3][1] == I(0))
            st.g['tasks'] = keep

    def wake_check(self, st):
        """every slot that reported Pending must still be Pending unless a source it registered with fires"""
        en = self.en
        c = self.comp
        w = st.g['w']
        for i, s in enumerate(w):
            if s[2] != 'P':
                continue
            kind = s[0]
            op = {'svc': 'poll_ready', 'fut': 'poll', 'stream': 'poll_next'}[kind]
            aww = st.g.get('aww', frozenset())
            if any(x[0] == 'aw' and x[1] in aww for x in s[4]) or ('selfwake',) in s[4]:
                continue
            s2 = st.copy()
            en.mute += 1
            try:
                s2.g['mute'] = 1
                outs = None
                self.nwake += 1
                s2.g['reg'] = frozenset()
                s2.g['regother'] = frozenset()
                s2.g['quiet'] = s[4]
                s2.g.pop('woke', None)
                if self.comp.track:
                    s2.g['op'] = ()
                ref = s[1]
                if op == 'poll_ready' and c.methods:
                    outs = c.method(en, s2, 'poll_ready', [ref])
                elif op == 'poll_ready':
                    outs = en.call_trait(s2, None, SVC, 'poll_ready', [ref, self.cx(s2)])
                elif op == 'poll':
                    outs = en.call_trait(s2, None, FUT, 'poll', [pin(ref), self.cx(s2)])
                else:
                    outs = en.call_trait(s2, None, STREAM, 'poll_next', [pin(ref), self.cx(s2)])
            finally:
                en.mute -= 1
            for s3, r in outs:
                sh, val = shape(r)
                if sh != 'P' and not s3.g.get('woke'):
                    s3.g['mute'] = 0
                    en.violate(s3, 'wake', 'lost-wakeup', '%s stays able to make progress (%s) but none of the sources it registered with fires: registered %s' % (
                        op, sh, sorted(str(x[0]) for x in s[4])), self.entry(op, s, st))

    def run(self, t_limit=None):
        en = self.en
        c = self.comp
        en.ctx = c.name
        c.config(en)
        en.listeners = [self.listen]
        st = State()
        st.g['w'] = ()
        t0 = time.time()
        init = []
        st.g['mute'] = 1     # documented constructor preconditions are the caller's duty
        for s, v in c.build(en, st):
            s.g.pop('mute', None)
            if type(v) is not list:
                v = [(c.roots[0], v)]
            for k, x in v:
                self.add_slot(s, k, x, 'N' if k == 'svc' else 'L')
            s.g.pop('op', None)
            init.append(s)
        if not init:
            raise CheckError("constructor of %s never returns" % c.name)
        seen = {}
        work = deque()
        for s in init:
            self.push(seen, work, s)
        par = getattr(self, 'par', 1)
        self.t_end = t_limit and t0 + t_limit
        while work and not self.truncated:
            if par > 1 and len(work) >= 12:
                level, work = list(work), deque()
                self.level(par, level, seen, work)
                continue
            st = work.popleft()
            if self.nstates + 1 > c.max_states or (t_limit and time.time() > self.t_end):
                self.truncated = True
                break
            for s4 in self.expand_state(st):
                self.push(seen, work, s4)
        c.final(en, seen)
        self.seconds = time.time() - t0
        return self

    SENDS = ('svc.call', 'mpsc.send')

    def unpolled_call(self, st, slot, clone):
        """does a request handed to (a clone of) this handle without polling it get dispatched?"""
        en = self.en
        found = None
        s = st.copy()
        en.mute += 1
        try:
            s.g['mute'] = 1
            for k in ('reg', 'regother'):
                s.g[k] = frozenset()
            if self.comp.track:
                s.g['op'] = ()
            starts = [(s, slot[1])]
            if clone:
                from .models import clone_via
                starts = []
                for s1, v in clone_via(en, s, s.get(slot[1][1], slot[1][2]), slot[1]):
                    starts.append((s1, ('r', s1.new(v), ())))
            for s1, ref in starts:
                base = s1.trace
                fs = s1.fresh()
                for s2, r in en.call_trait(s1, None, SVC, 'call', [ref, self.comp.req(en, s1, fs)]):
                    t = s2.trace
                    while t is not None and t is not base:
                        if t[1][0] in self.SENDS:
                            found = s2
                        t = t[0]
        except (Limit, CheckError):
            return None
        finally:
            en.mute -= 1
        return found

    def clone_probe(self, st):
        """a fresh handle does not dispatch before it was polled; neither may a clone of a ready one"""
        ref = getattr(self, 'ref_dispatch', None)
        if ref is None:
            w = [sl for sl in st.g['w'] if sl[0] == 'svc' and sl[2] == 'N']
            ref = self.ref_dispatch = any(self.unpolled_call(st, sl, cl) is not None for sl in w for cl in (False, True))
        if ref:
            return
        for sl in st.g['w']:
            if sl[0] == 'svc' and sl[2] == 'R':
                s = self.unpolled_call(st, sl, True)
                if s is not None:
                    s.g['mute'] = 0
                    self.en.violate(s, 'C05', 'clone-inherits-readiness',
                                    'a clone of a ready handle dispatches a request before it was polled to readiness itself, which a new handle does not', self.entry('clone', sl, s))

    def expand_state(self, st):
        """all successors of one abstract state"""
        en = self.en
        c = self.comp
        self.nstates += 1
        if st.taint is not None:
            self.tainted += 1
        if c.wake:
            self.wake_check(st)
        if self.probe and c.clone:
            self.clone_probe(st)
        self.access(st)
        for op in self.ops(st):
            yield from self.step(st, op)

    ACCESS = ('get_ref', 'get_mut', 'into_inner', 'take_service')

    def access(self, st):
        """at any time the accessors of a wrapper hand out the service it wraps (also: its load)"""
        en = self.en
        for i, sl in enumerate(st.g['w']):
            if sl[0] not in ('svc', 'stream') or sl[1][1] not in st.heap:
                continue
            v = st.heap[sl[1][1]]
            if v[0] != 'a' or v[1].startswith('lib:'):
                continue
            todo = [(m, ks[0]) for m in self.ACCESS for ks in (en.F.inherent.get((v[1], m)),) if ks and len(ks) == 1]
            if self.comp.passes_load:
                todo.append(('load', None))
            for m, k in todo:
                s = st.copy()
                s.ev('access', m)
                if self.comp.track:
                    s.g['op'] = ()
                s.g['reg'] = s.g['regother'] = frozenset()
                s.g['inaccess'] = 1
                self.naccess += 1
                try:
                    if m == 'load':
                        outs = en.call_trait(s, None, LOAD, 'load', [sl[1]])
                    else:
                        b = en.C.body(k)
                        outs = en.run_body(s, b, [v if m == 'into_inner' else pin(sl[1]) if m == 'take_service' else sl[1]])
                except Limit:
                    continue
                for s2, r in outs:
                    if s2.taint is not None:
                        continue
                    while r[0] in ('r', 'b'):
                        r = s2.get(*s2.deref(r))
                    x = lv(r)
                    if m == 'load':
                        if x[:3] != ('m', 'Load', 'load') or x[3][0] != 'svc' or x[3][1] not in self.comp.inner:
                            en.violate(s2, 'access', 'load-of-another', 'the load of the wrapper is %s, not that of the service it wraps' % (x,), self.entry('load', sl, s2))
                    elif type(x) is tuple and x and x[0] == 'svc':
                        if x[1] not in self.comp.inner:
                            en.violate(s2, 'access', 'another-service', '%s hands out %s' % (m, x), self.entry(m, sl, s2))
                    else:
                        en.violate(s2, 'access', 'another-service', '%s hands out %s, not the wrapped service' % (m, x), self.entry(m, sl, s2))

    def step(self, st, op):
        """all successors of one abstract state by one operation"""
        en = self.en
        c = self.comp
        s = st.copy()
        slots = s.g['w']
        c.before(en, s, op)
        s.ev('op', op[0], slots[op[1]][3] if op[0] != 'task' and len(op) > 1 and type(op[1]) is int and op[1] < len(slots) else op[1:])
        self.nops += 1
        self.opkinds[op[0]] = self.opkinds.get(op[0], 0) + 1
        try:
            outs = self.raw(s, op)
        except Limit as ex:
            if en.debug:
                import traceback; traceback.print_exc(limit=-4)
            self.truncated = True
            return
        for s2, r in outs:
            s2.ev('=', r)
            nx, slot = self.settle(s2, op, r)
            for s3 in nx:
                c.after(en, s3, op, slot, r)
                if op[0] in ('poll_ready', 'poll', 'poll_next'):
                    # the client is done with what it was handed
                    s4s = en.drop_value(s3, r)
                else:
                    s4s = (s3,)
                for s4 in s4s:
                    self.gc_tasks(s4)
                    for k in ('reg', 'regother', 'op', 'cur', 'nit', 'spin', 'revoked', 'newreq', 'pre', 'who'):
                        s4.g.pop(k, None)
                    for k in [k for k in s4.facts if self.volatile(k)]:
                        del s4.facts[k]
                    yield s4

    COUNTS = ('nstates', 'nops', 'nwake', 'npend', 'tainted', 'naccess')

    def level(self, par, level, seen, work):
        """one breadth-first level, its states shared out between forked workers"""
        en = self.en
        c = self.comp
        ctr = mp.RawValue('i', 0)
        lock = mp.Lock()
        base = {k: getattr(self, k) for k in self.COUNTS}
        kids = []
        for _ in range(min(par, len(level))):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    os.close(r)
                    out = self.level_worker(level, seen, ctr, lock, base)
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(out, f, protocol=5)
                    rc = 0
                except BaseException:
                    import traceback
                    traceback.print_exc()
                finally:
                    os._exit(rc)
            os.close(w)
            kids.append((pid, r))
        got = []
        bad = False
        for pid, r in kids:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            try:
                got.append(pickle.loads(data))
            except Exception:
                bad = True
        if bad:
            raise CheckError("a worker of the state exploration failed")
        res = []
        for d in got:
            res.extend(d['res'])
            for k, v in d['counts'].items():
                setattr(self, k, getattr(self, k) + v)
            self.truncated = self.truncated or d['truncated']
            for mine, his in ((self.results, d['results']), (self.opkinds, d['opkinds'])):
                for k, v in his.items():
                    mine[k] = mine.get(k, 0) + v
            merge(en.stats, d['stats'])
        res.sort(key=lambda x: x[0])
        for i, succ, vio, sup in res:
            for mine, his in ((en.violations, vio), (en.suppressed, sup)):
                for k, a in his:
                    if k not in mine:
                        mine[k] = Violation(*a)
            st = level[i]
            for key, ns, evs in succ:
                if key in seen:
                    continue
                seen[key] = True
                t = st.trace
                for e in evs:
                    t = (t, e)
                s = State()
                s.heap, s.ts, s.facts, s.n, s.g, s.taint = ns
                s.trace = t
                work.append(s)

    def level_worker(self, level, seen, ctr, lock, base):
        en = self.en
        c = self.comp
        en.stats = {k: (set() if type(v) is set else {} if type(v) is dict else 0) for k, v in en.stats.items()}
        self.results = {}
        self.opkinds = {}
        res = []
        while True:
            with lock:
                i = ctr.value
                ctr.value = i + 1
            if i >= len(level):
                break
            if base['nstates'] + i + 1 > c.max_states or (self.t_end and time.time() > self.t_end):
                self.truncated = True
                break
            st = level[i]
            vio, sup = set(en.violations), set(en.suppressed)
            new = deque()
            for s4 in self.expand_state(st):
                self.push(seen, new, s4, True)
            succ = []
            for key, ns in new:
                evs = []
                t = ns.trace
                while t is not None and t is not st.trace:
                    evs.append(t[1])
                    t = t[0]
                evs.reverse()
                succ.append((key, (ns.heap, ns.ts, ns.facts, ns.n, ns.g, ns.taint), evs))
            res.append((i, succ, [(k, v.args()) for k, v in en.violations.items() if k not in vio],
                        [(k, v.args()) for k, v in en.suppressed.items() if k not in sup]))
        return {'res': res, 'counts': {k: getattr(self, k) - base[k] for k in self.COUNTS}, 'truncated': self.truncated,
                'results': self.results, 'opkinds': self.opkinds, 'stats': en.stats}

    ORDER = {'svc': 0, 'stream': 1, 'fut': 2}

    @classmethod
    def volatile(cls, l):
        """facts about values which may differ at the next operation (a load metric)"""
        if type(l) is tuple:
            return l[:2] == ('m', 'Load') or any(cls.volatile(x) for x in l)
        return False

    def push(self, seen, work, s, keyed=False):
        w = s.g['w']
        mon = s.g.get('mon')
        if mon:
            live = {sl[3] for sl in w}
            mon = tuple(sorted((x for x in mon if x[0] in live or x[0][0] != '#'), key=repr))
            if mon:
                s.g['mon'] = mon
            else:
                s.g.pop('mon')
        aww = s.g.get('aww')
        if aww:
            # a wake-up matters only to pending slots registered with its source
            used = {x[1] for sl in w if sl[2] == 'P' for x in sl[4] if x[0] == 'aw'}
            stack = list(s.heap.values())
            while stack:
                v = stack.pop()
                if v[0] == 'a':
                    if v[1] == 'lib:FM':
                        used |= {x[1] for x in (v[3][1][1][1] or ()) if x[0] == 'aw'}
                    stack.extend(v[3])
                elif v[0] in ('t', 'arr'):
                    stack.extend(v[1])
            aww = aww & used
            if aww:
                s.g['aww'] = aww
            else:
                s.g.pop('aww')
        if len(w) > 1:
            s.g['w'] = tuple(sorted(w, key=lambda x: self.ORDER.get(x[0], 3)))
        key, ns, ex = canon(s)
        if key in seen:
            return
        seen[key] = True
        work.append((key, ns) if keyed else ns)

    def listen(self, en, st, kind, a):
        if self.comp.track and (self.comp.track is True or kind in self.comp.track):
            op = st.g.get('op')
            if op is not None and self.comp.keep(st, kind, a):
                st.g['op'] = op + ((kind,) + a,)
        if st.g.get('mute'):
            return
        if kind == 'panic':
            msg = a[0]
            for p in self.comp.allow_panics:
                if p in msg:
                    return
            en.violate(st, 'panic', 'panic', msg)
            if st.g.get('inaccess'):
                en.violate(st, 'access', 'panic', msg)
        self.comp.event(en, st, kind, a)


class Marathon(Driver):
    """Long histories against a fixed environment.

    The exploration of Driver closes the states of a small configuration; a
    counter inside the component which changes its behaviour only after many
    requests, retries or queued messages is outside of it.  This driver follows
    one path per profile for some hundred operations, under the same rules.
    """
    ROUNDS = 140
    QUEUE = 40
    PROFILES = ('steady', 'burst', 'failing', 'cancelled', 'delayed', 'backlog', 'stalled')

    def __init__(self, en, comp, profile):
        Driver.__init__(self, en, comp)
        self.profile = profile
        self.rounds = 0

    def environment(self):
        en, prof = self.en, self.profile
        c = self.comp
        n = [0]

        def turn(src):
            """pending first, then an answer, in turns"""
            n[0] += 1
            return n[0] % 2
        if prof == 'delayed':
            en.svc_ready = lambda st, L: ('P',) if st.ts.get(L) != 'R' and turn(L) else ('R',)
            en.fut_outcomes = lambda st, F: ('P',) if turn(F) else ('R',)
        else:
            early = lambda: self.rounds < self.QUEUE + 10
            en.svc_ready = lambda st, L: ('P',) if prof == 'stalled' and early() and st.ts.get(L) != 'R' else ('R',)
            en.fut_outcomes = lambda st, F: ('P',) if prof == 'backlog' and early() else ('R',)
        vf = en.variant_filter
        want = 1 if prof == 'failing' else 0

        def variant(st, label, ty, n):
            if ty[1] == RES and n == 2:
                return [want]
            return vf(st, label, ty, n)
        en.variant_filter = variant
        si = en.stream_items
        k = [0]

        def items(st, L):
            o = si(st, L)
            good = [x for x in o if x not in ('P', None) and not (type(x) is tuple and x[:3] == ('a', RES, 1)) and not self.errs(st, x)]
            k[0] += 1
            gap = self.QUEUE // 2 if prof == 'burst' else 2
            if good and (k[0] % gap or 'P' not in o):
                return [good[(k[0] // gap + k[0]) % len(good)]]
            return ['P'] if 'P' in o else list(o)[:1]
        en.stream_items = items

        def policy(st):
            n = st.g.get('retries', 0)
            again = n < (self.QUEUE if prof == 'failing' else 1)
            st.g['retries'] = n + 1 if again else 0
            return again
        en.policy_pick = policy
        c.max_out = self.QUEUE
        en.chan_cap = self.QUEUE + 2
        en.fu_cap = self.QUEUE + 2
        en.fu_first_only = True
        c.futs = self.QUEUE
        c.handles = 1

    @staticmethod
    def errs(st, x):
        """is this stream item an error?"""
        if callable(x):
            x = x(st.copy())
        return type(x) is tuple and x[:3] == ('a', RES, 1)

    def one(self, st, op, like=None):
        """the preferred successor"""
        best = None
        for s in self.step(st, op):
            t = s.trace
            sh = None
            while t is not None:
                if t[1][0] == '=':
                    sh = shape(t[1][1])[0] if type(t[1][1]) is tuple and t[1][1] and t[1][1][0] == 'a' else '?'
                    break
                t = t[0]
            rank = {'ok': 0, 'some': 0, 'R': 0, '?': 1, 'P': 2, 'none': 3, 'err': 3}.get(sh, 1) + (5 if s.taint is not None else 0)
            if self.profile == 'failing' and sh == 'err':
                rank = 0
            if best is None or rank < best[0]:
                best = (rank, s)
            if rank == 0:
                break
        if best is None:
            return None
        self.nstates += 1
        seen, work = {}, deque()
        self.push(seen, work, best[1])
        s = work[0]
        if self.comp.wake and self.nstates % 8 == 0:
            self.wake_check(s)
        s.trace = self.clip(s.trace)
        return s

    @staticmethod
    def clip(t):
        """keep the end of the trace"""
        n, x = 0, t
        while x is not None:
            n += 1
            x = x[0]
        if n < 1500:
            return t
        evs = []
        while t is not None and len(evs) < 300:
            evs.append(t[1])
            t = t[0]
        r = None
        for e in reversed(evs):
            r = (r, e)
        return r

    def run(self, t_limit=None):
        en, c = self.en, self.comp
        en.ctx = c.name
        c.config(en)
        self.environment()
        en.listeners = [self.listen]
        st = State()
        st.g['w'] = ()
        st.g['mute'] = 1
        t0 = time.time()
        self.t_end = t0 + (t_limit or 60)
        init = None
        for s, v in c.build(en, st):
            s.g.pop('mute', None)
            if type(v) is not list:
                v = [(c.roots[0], v)]
            for k, x in v:
                self.add_slot(s, k, x, 'N' if k == 'svc' else 'L')
            s.g.pop('op', None)
            if init is None or init.taint is not None and s.taint is None:
                init = s
        st = init
        if st is None:
            raise CheckError("constructor of %s never returns" % c.name)
        if self.profile in ('burst', 'backlog', 'stalled'):
            for _ in range(2 * self.QUEUE):
                ops = [o for o in self.ops(st) if o[0] in ('call', 'poll_ready')]
                o = next((o for o in ops if o[0] == 'call'), ops[0] if ops else None)
                if o is None or time.time() > self.t_end:
                    break
                s = self.one(st, o)
                if s is None:
                    break
                stuck = o[0] == 'poll_ready' and not any(x[2] == 'R' for x in s.g['w'] if x[0] == 'svc')
                st = s
                if stuck:
                    break
        for self.rounds in range(self.ROUNDS):
            before = self.nops
            for kind, most in (('svc', 2), ('stream', 1), ('task', 2), ('fut', 3)):
                pos = 0
                for _ in range(most):
                    if time.time() > self.t_end:
                        return self
                    o = self.due(st, kind, pos)
                    if o is None:
                        break
                    n = len(st.g['w'])
                    s = self.one(st, o)
                    if s is None:
                        return self
                    st = s
                    if kind != 'svc' and len(s.g['w']) >= n:
                        pos += 1
            st = self.stir(st)
            if self.nops == before:
                break
        self.final = st
        return self

    def due(self, st, kind, pos):
        """the operation whose turn it is on the pos-th object of a kind"""
        ops = self.ops(st)
        if kind == 'task':
            c = [o for o in ops if o[0] == 'task']
        elif kind == 'fut':
            c = [o for o in ops if o[0] == ('drop' if self.profile == 'cancelled' else 'poll') and st.g['w'][o[1]][0] == 'fut']
        elif kind == 'stream':
            c = [o for o in ops if o[0] == 'poll_next']
        else:
            c = [o for o in ops if o[0] == 'call'] or [o for o in ops if o[0] == 'poll_ready' and st.g['w'][o[1]][2] != 'R']
        return c[pos] if pos < len(c) else None

    def stir(self, st):
        """operations of the surroundings (permits handed out, time, ...) in turns"""
        for j in range(3):
            ex = [o for o in self.comp.extra_ops(self.en, st) if o[0] not in self.FATAL]
            if not ex:
                return st
            s = self.one(st, ex[(3 * self.rounds + j) % len(ex)])
            st = st if s is None else s
        return st

    FATAL = ('kill', 'unordered', 'drop_handle', 'send_error')
