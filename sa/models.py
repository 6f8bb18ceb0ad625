"""Contracts of what tower calls but does not define: user services / futures /
streams / policies (boundary), and std / futures / tokio / indexmap primitives.

Every handler returns [(state, value)], one entry per outcome the contract
allows.  Boundary handlers also keep the typestate of the opaque object in
state.ts and raise protocol violations (service called without readiness,
completed future polled again, user code entered with a lock held ...).
"""
from .engine import (label_depth, LIMITS, UNIT, TOP, NUM, UNDEF, TRUE, FALSE, OPT, RES, POLL, PIN, BOX, ARC, CF, ORD, some, NONE, ok, err, ready, PENDING,
                     pin, lib, boolv, I, lv, CheckError, Limit)


def is_cx(en, st, cx):
    """is this context the one the caller of the public poll function supplied?"""
    v = cx
    while v[0] in ('r', 'b'):
        v = st.get(*st.deref(v))
    return v[0] == 'a' and v[1] == 'lib:Cx' and v[3][0] == ('s', ('waker', st.g.get('cur', 'cur')))


def cx_waker(en, st, cx):
    v = cx
    while v[0] in ('r', 'b'):
        v = st.get(*st.deref(v))
    if v[0] == 'a' and v[1] == 'lib:Cx':
        w = v[3][0]
        return strip(st, w)
    return v


def strip(st, v):
    while v[0] in ('r', 'b'):
        v = st.get(*st.deref(v))
    return v


def register(en, st, src, cx):
    """`src` returned Pending having been given context cx"""
    if is_cx(en, st, cx):
        st.g['reg'] = st.g.get('reg', frozenset()) | {src}
    else:
        w = cx_waker(en, st, cx)
        st.g['regother'] = st.g.get('regother', frozenset()) | {(src, lv(w))}


SPIN = 6


def spins(en, st, src):
    """`src` is pending once more in this operation; is it being polled round and round instead of waited for?"""
    t = st.g.get('spin', ())
    d = dict(t)
    n = d.get(src, 0) + 1
    if n > SPIN:
        en.violate(st, 'wake', 'spins-on-pending', 'one poll asks %s again and again while it is pending instead of returning' % (src[0],))
        return True
    d[src] = n
    st.g['spin'] = tuple(sorted(d.items(), key=repr))
    return False


def progress(en, st, src):
    """`src` produced an answer (or was entered) in this operation"""
    t = st.g.get('spin')
    if t:
        st.g['spin'] = tuple(x for x in t if x[0] != src)
    if src in st.g.get('quiet', ()):
        st.g['woke'] = 1


def user_code(en, st, what):
    l = st.g.get('locks')
    if l:
        en.violate(st, 'lock', 'user-code-under-lock', what)


# ------------------------------------------------------------ services


def svc_poll_ready(en, st, fr, args, v, o, p):
    if v[0] != 's':
        return None
    L = v[1]
    cx = args[1]
    user_code(en, st, 'Service::poll_ready')
    en.count("boundary", "Service::poll_ready")
    src = ('svc', L)
    opts = en.svc_ready(st, L)
    out = []
    for n, k in enumerate(opts):
        s = st if n == len(opts) - 1 else st.copy()
        if k == 'F' or (k == 'P' and s.ts.get(L) == 'R'):
            s.g['revoked'] = 1       # the inner service itself took its readiness back
        if k == 'P':
            s.ts[L] = 'P'
            register(en, s, src, cx)
            en.emit(s, 'svc.ready', L, 'P')
            if spins(en, s, src):
                continue
            out.append((s, PENDING))
        elif k == 'R':
            s.ts[L] = 'R'
            progress(en, s, src)
            en.emit(s, 'svc.ready', L, 'R')
            out.append((s, ready(ok(UNIT))))
        else:
            s.ts[L] = 'F'
            progress(en, s, src)
            e = ('s', ('rderr', L))
            en.emit(s, 'svc.ready', L, 'F')
            out.append((s, ready(err(e))))
    return out


def error_source(en, st, fr, args, v, o, p):
    """an unknown error may have a source of its own, or none"""
    if v[0] != 's':
        return None
    x = ('src', v[1])
    return [(st.copy(), NONE), (st, some(('r', st.new(('s', x)), ())))]


def svc_call(en, st, fr, args, v, o, p):
    if v[0] != 's':
        return None
    L = v[1]
    req = args[1]
    user_code(en, st, 'Service::call')
    en.count("boundary", "Service::call")
    t = st.ts.get(L, 'N')
    if t != 'R' and en.needs_ready(st, L):
        en.violate(st, 'ready', 'call-without-readiness', 'inner service called in state %s' % {'N': 'not polled since its last call', 'P': 'pending', 'F': 'failed'}[t])
    st.ts[L] = 'N'
    fut = ('fut', L, lv(req), st.fresh())
    st.ts[fut] = 'live'
    en.emit(st, 'svc.call', L, req, fut)
    return [(st, ('s', fut))]


def fut_poll(en, st, fr, args, v, o, p):
    if v[0] != 's':
        return None
    F = v[1]
    cx = args[1]
    user_code(en, st, 'Future::poll')
    en.count("boundary", "Future::poll")
    if st.ts.get(F) == 'done':
        en.violate(st, 'repoll', 'future-polled-after-completion', str(F[0]))
    src = ('fut', F)
    opts = en.fut_outcomes(st, F)
    out = []
    for n, k in enumerate(opts):
        s = st if n == len(opts) - 1 else st.copy()
        if k == 'P':
            register(en, s, src, cx)
            en.emit(s, 'fut.poll', F, 'P')
            if spins(en, s, src):
                continue
            out.append((s, PENDING))
        else:
            s.ts[F] = 'done'
            progress(en, s, src)
            if src in s.g.get('reg', ()):
                s.g['reg'] = s.g['reg'] - {src}      # a finished future wakes nobody
            ov = en.fut_output(s, F)
            if k == 'ok':
                ov = ok(('s', ('pj', ('out', F), 0, 0)))
                s.facts[('var', ('out', F))] = 0
            elif k == 'err':
                ov = err(('s', ('pj', ('out', F), 1, 0)))
                s.facts[('var', ('out', F))] = 1
            elif k != 'R':
                ov = k
            en.emit(s, 'fut.poll', F, 'R', ov)
            out.append((s, ready(ov)))
    return out


def stream_poll(en, st, fr, args, v, o, p):
    if v[0] != 's':
        return None
    L = v[1]
    cx = args[1]
    user_code(en, st, 'Stream::poll_next')
    en.count("boundary", "Stream::poll_next")
    if st.ts.get(L) == 'ended':
        en.violate(st, 'repoll', 'stream-polled-after-end', str(L[0]))
    src = ('stream', L)
    out = []
    opts = en.stream_items(st, L)   # list of 'P', None (end) or value
    for n, k in enumerate(opts):
        s = st if n == len(opts) - 1 else st.copy()
        if k == 'P':
            register(en, s, src, cx)
            en.emit(s, 'stream.poll', L, 'P')
            if spins(en, s, src):
                continue
            out.append((s, PENDING))
        elif k is None:
            s.ts[L] = 'ended'
            progress(en, s, src)
            en.emit(s, 'stream.poll', L, 'end')
            out.append((s, ready(NONE)))
        else:
            progress(en, s, src)
            if callable(k):
                k = k(s)
            en.emit(s, 'stream.poll', L, 'item', k)
            out.append((s, ready(some(k))))
    return out


def trait_clone(en, st, fr, args, v, o, p):
    return clone_value(en, st, v)


def clone_value(en, st, v):
    k = v[0]
    if k in ('i', 'f', 'str', 'fn', 'r', 'top', 'undef'):
        return [(st, v)]
    if k == 's':
        L = v[1]
        if L[0] in en.fresh_clone:
            # a clone is a new instance: it shares nothing of its origin's typestate
            n = (L[0], L[1], st.fresh()) if len(L) > 1 else (L[0], '', st.fresh())
            st.ev('clone', L, n)
            for h in en.listeners:
                h(en, st, 'clone', (L, n))
            return [(st, ('s', n))]
        return [(st, v)]
    if k == 'rc':
        o = v[1]
        if o in st.heap:
            bx = st.heap[o]
            n = bx[3][1]
            st.heap[o] = ('a', bx[1], 0, (bx[3][0], I(n[1] + 1)))
        return [(st, v)]
    if k == 'b':
        inner = st.get(v[1], ())
        out = []
        for s, w in clone_via(en, st, inner, ('r', v[1], ())):
            out.append((s, ('b', s.new(w))))
        return out
    if k in ('t', 'arr', 'cl') or k == 'a':
        if k == 'a' and v[1] == PIN:
            return [(st, v)]
        fs = v[3] if k == 'a' else (v[2] if k == 'cl' else v[1])
        if k == 'a' and v[1].startswith('lib:'):
            m = en.methods.get((v[1], 'clone'))
            if m is not None:
                ob = st.new(v)
                return m(en, st, None, [('r', ob, ())])
            if v[1] not in ('lib:Vec', 'lib:IMap'):
                en.taint(st, 'clone ' + v[1])
                return [(st, v)]
        states = [(st, [])]
        for i, f in enumerate(fs):
            nx = []
            for s, acc in states:
                ob = s.new(f)
                for s2, w in clone_via(en, s, f, ('r', ob, ())):
                    nx.append((s2, acc + [w]))
            states = nx
        res = []
        for s, acc in states:
            if k == 'a':
                res.append((s, ('a', v[1], v[2], tuple(acc))))
            elif k == 'cl':
                res.append((s, ('cl', v[1], tuple(acc))))
            else:
                res.append((s, (k, tuple(acc))))
        return res
    return [(st, v)]


CLONE = 'core::clone::Clone'


def clone_via(en, st, v, ref):
    """clone through the type's own Clone impl when it has one in the workspace"""
    if v[0] == 'a' and not v[1].startswith('lib:'):
        if en.find_impls(CLONE, v):
            return en.call_trait(st, None, CLONE, 'clone', [ref])
    return clone_value(en, st, v)


def user_fn(en, st, label, args):
    user_code(en, st, 'user closure')
    en.count("boundary", "user closure")
    r = ('app', label) + tuple(lv(strip(st, a)) for a in args)
    en.emit(st, 'fn.call', label, tuple(args), r)
    if ('fut',) and label[0] in en.fn_fresh:
        r = r + (st.fresh(),)
    return [(st, ('s', r))]


def generic_trait(en, st, fr, trait, name, args, v, o, p):
    """a method of an unknown trait on an opaque value: pure, provenance kept"""
    tn = trait.rsplit("::", 1)[-1]
    if tn in ('Debug', 'Display'):
        return [(st, ok(UNIT))]
    if tn == 'Error':
        return [(st, NONE)]
    user_code(en, st, tn + '::' + name)
    en.count("boundary", tn + "::" + name)
    r = ('m', tn, name, v[1]) + tuple(lv(strip(st, a)) for a in args[1:])
    en.emit(st, 'trait.call', tn, name, v[1], tuple(args[1:]))
    return [(st, ('s', r))]


def track_completion(en, st, fr, args, v, o, p):
    """TrackCompletion::track_completion(&self, H, V) of the user's: the output keeps the handle"""
    if v[0] != 's':
        return None
    user_code(en, st, 'TrackCompletion::track_completion')
    en.count("boundary", "TrackCompletion::track_completion")
    en.emit(st, 'track', v[1], args[1], args[2])
    return [(st, lib('Tracked', v, args[2], args[1]))]


def policy_clone(en, st, fr, args, v, o, p):
    """Policy::clone_request(&mut self, &Req) -> Option<Req>"""
    if v[0] != 's':
        return None
    user_code(en, st, 'Policy::clone_request')
    en.count("boundary", "Policy::clone_request")
    rq = lv(strip(st, args[1]))
    root = rq[1] if type(rq) is tuple and rq and rq[0] == 'rqclone' else rq
    s2 = st.copy()
    en.emit(s2, 'policy.clone', v[1], rq, None)
    c = ('s', ('rqclone', root))
    en.emit(st, 'policy.clone', v[1], rq, c[1])
    return [(s2, NONE), (st, some(c))]


def policy_retry(en, st, fr, args, v, o, p):
    """Policy::retry(&mut self, &mut Req, &mut Result) -> Option<Future>"""
    if v[0] != 's':
        return None
    user_code(en, st, 'Policy::retry')
    en.count("boundary", "Policy::retry")
    rq = lv(strip(st, args[1]))
    rs = strip(st, args[2])
    if en.policy_pick is not None and not en.policy_pick(st):
        en.emit(st, 'policy.retry', v[1], rq, rs, None)
        return [(st, NONE)]
    s2 = st.copy()
    if en.policy_pick is None:
        en.emit(s2, "policy.retry", v[1], rq, rs, None)
    f = ('ufut', 'retry', st.fresh())
    st.ts[f] = 'live'
    en.emit(st, 'policy.retry', v[1], rq, rs, f)
    if en.policy_pick is not None:
        return [(st, some(('s', f)))]
    return [(s2, NONE), (st, some(('s', f)))]


# ------------------------------------------------------------ std


def n_replace(en, st, fr, a):
    o, p = st.deref(a[0])
    old = st.get(o, p)
    st.put(o, p, a[1])
    return [(st, old)]


def n_swap(en, st, fr, a):
    o, p = st.deref(a[0])
    o2, p2 = st.deref(a[1])
    x, y = st.get(o, p), st.get(o2, p2)
    st.put(o, p, y)
    st.put(o2, p2, x)
    return [(st, UNIT)]


def n_take(en, st, fr, a):
    """mem::take: leaves the type's default"""
    o, p = st.deref(a[0])
    old = st.get(o, p)
    t = fr.targ(0)
    if old[0] == 'a' and old[1] in ('lib:Vec', 'lib:IMap'):
        d = lib(old[1][4:])
    elif old[0] == 'a' and old[1] == OPT:
        d = NONE
    elif old[0] == 'i':
        d = I(0)
    elif t is not None:
        d = en.default_of(st, t)
    else:
        d = TOP
    st.put(o, p, d)
    return [(st, old)]


def n_drop(en, st, fr, a):
    return [(s, UNIT) for s in en.drop_value(st, a[0])]


def n_forget(en, st, fr, a):
    en.emit(st, 'forget', lv(a[0]))
    return [(st, UNIT)]


def n_ident(en, st, fr, a):
    return [(st, a[0])]


def n_read(en, st, fr, a):
    d = st.deref(a[0])
    if d is None:
        return en.havoc(st, 'ptr::read', a)
    return [(st, st.get(*d))]


def n_write(en, st, fr, a):
    d = st.deref(a[0])
    if d is None:
        return en.havoc(st, 'ptr::write', a)
    st.put(d[0], d[1], a[1])
    return [(st, UNIT)]


def n_panic(en, st, fr, a):
    msg = ''
    for x in a:
        y = strip(st, x) if x[0] in ('r', 'b') else x
        if y[0] == 'str':
            msg = y[1]
            break
    en.panic(st, (fr.n if fr else 'panic') + (':' + msg if msg else ''))
    return []


def n_box_new(en, st, fr, a):
    return [(st, ('b', st.new(a[0])))]


def n_box_pin(en, st, fr, a):
    return [(st, pin(('b', st.new(a[0]))))]


def n_pin_new(en, st, fr, a):
    return [(st, pin(a[0]))]


def n_arc_new(en, st, fr, a):
    return [(st, ('rc', st.new(lib('RcBox', a[0], I(1)))))]


def arc_deref(en, st, fr, a):
    v = a[0]
    while v[0] in ('r', 'b') or (v[0] == 'a' and v[1] == PIN):
        v = st.get(*st.deref(v))
    return [(st, ('r', v[1], (0,)))]


def arc_clone(en, st, fr, a):
    v = a[0]
    while v[0] in ('r', 'b') or (v[0] == 'a' and v[1] == PIN):
        v = st.get(*st.deref(v))
    return clone_value(en, st, v)


def arc_count(en, st, fr, a):
    v = strip(st, a[0])
    c = st.get(v[1], (1,))
    return [(st, c)]


def arc_get_mut(en, st, fr, a):
    v = strip(st, a[0])
    c = st.get(v[1], (1,))
    if c == I(1):
        return [(st, some(('r', v[1], (0,))))]
    return [(st, NONE)]


def arc_try_unwrap(en, st, fr, a):
    v = a[0]
    bx = st.heap[v[1]]
    if bx[3][1] == I(1):
        st.heap.pop(v[1])
        return [(st, ok(bx[3][0]))]
    return [(st, err(v))]


def deref_trait(en, st, fr, args, v, o, p):
    k = v[0]
    if k == 'a' and v[1] == PIN:
        w = v[3][0]
        if w[0] == 'r':
            return [(st, w)]
        if w[0] == 'b':
            return [(st, ('r', w[1], ()))]
        return [(st, w)]
    if k == 'r':
        return [(st, v)]
    if k == 'b':
        return [(st, ('r', v[1], ()))]
    if k == 'rc':
        return [(st, ('r', v[1], (0,)))]
    if k == 'a' and v[1].startswith('lib:'):
        return [(st, args[0])]
    if k == 'str':
        return [(st, v)]
    if k == 's':
        # an opaque smart pointer
        return [(st, args[0])]
    return None


def default_trait(en, st, fr, args, v, o, p):
    return None


def cmp_trait(en, st, fr, args, v, o, p):
    a = strip(st, args[0])
    b = strip(st, args[1])
    n = fr.n
    op = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge', 'eq': 'Eq', 'ne': 'Ne'}.get(n)
    if (fr.rnp and 'tracing' in fr.rnp) or (a[0] == 'a' and a[1].startswith(('log::', 'tracing'))) or (b[0] == 'a' and b[1].startswith(('log::', 'tracing'))):
        # logging disabled
        if n == 'partial_cmp':
            return [(st, some(('a', ORD, 2, ())))]
        if n == 'cmp':
            return [(st, ('a', ORD, 2, ()))]
        return [(st, FALSE)]
    if op:
        if op in ('Eq', 'Ne') and a[0] == 'a' and b[0] == 'a':
            r = struct_eq(en, st, a, b)
            if r is not None:
                return [(st, boolv(r == (op == 'Eq')))]
        return [(st, en.cmp_label(st, op, a, b))]
    if n in ('partial_cmp', 'cmp'):
        wrap = (lambda x: some(x)) if n == 'partial_cmp' else (lambda x: x)
        if a[0] in ('i', 'f') and b[0] in ('i', 'f'):
            c = (a[1] > b[1]) - (a[1] < b[1])
            return [(st, wrap(('a', ORD, c + 1, ())))]
        out = []
        lt = en.cmp_label(st, 'Lt', a, b)
        eq = en.cmp_label(st, 'Eq', a, b)
        for c in (0, 1, 2):
            s = st.copy()
            okk = True
            gt = en.cmp_label(s, 'Lt', b, a)
            for lab, want in ((lt, 1 if c == 0 else 0), (eq, 1 if c == 1 else 0), (gt, 1 if c == 2 else 0)):
                t = en.truth(s, lab)
                if t is None:
                    en.assume(s, lab, want)
                elif t != want:
                    okk = False
            if okk:
                out.append((s, wrap(('a', ORD, c, ()))))
        return out
    if n in ('min', 'max'):
        a, b = args[0], args[1]
        l = en.cmp_label(st, 'Lt', strip(st, b), strip(st, a)) if n == 'min' else en.cmp_label(st, 'Lt', strip(st, b), strip(st, a))
        t = en.truth(st, l)
        out = []
        for want in (1, 0):
            if t is not None and t != want:
                continue
            s = st.copy()
            if t is None:
                en.assume(s, l, want)
            if n == 'min':
                out.append((s, b if want else a))
            else:
                out.append((s, a if want else b))
        return out
    if n == 'clamp':
        out = []
        for s, t in branch(en, st, en.cmp_label(st, 'Lt', a, b)):
            if t:
                out.append((s, args[1]))
                continue
            for s2, t2 in branch(en, s, en.cmp_label(s, 'Lt', strip(s, args[2]), strip(s, args[0]))):
                out.append((s2, args[2] if t2 else args[0]))
        return out
    return None


def int_minmax(en, st, fr, a):
    l = en.cmp_label(st, 'Lt', a[1], a[0])
    return [(s, (a[1] if t else a[0]) if fr.n.endswith('min') else (a[0] if t else a[1])) for s, t in branch(en, st, l)]


def struct_eq(en, st, a, b):
    if a[0] == 'a' and b[0] == 'a':
        if a[1] != b[1] or a[2] != b[2]:
            return False
        rs = [struct_eq(en, st, x, y) for x, y in zip(a[3], b[3])]
        if any(r is False for r in rs):
            return False
        if all(r is True for r in rs):
            return True
        return None
    if a[0] == 'i' and b[0] == 'i':
        return a[1] == b[1]
    if a == b:
        return True
    return None


PUREARITH = {'saturating_add': lambda x, y: x + y, 'saturating_sub': lambda x, y: x - y, 'saturating_mul': lambda x, y: x * y,
             'wrapping_add': lambda x, y: x + y, 'wrapping_sub': lambda x, y: x - y, 'checked_sub': lambda x, y: x - y,
             'checked_add': lambda x, y: x + y, 'checked_mul': lambda x, y: x * y}


def num_method(en, st, fr, a):
    from .engine import INTBITS
    n = fr.n
    p = fr.rnp or fr.np
    ty = None
    for t in INTBITS:
        if '<impl ' + t + '>' in p:
            ty = t
    if n in PUREARITH and ty:
        x, y = a[0], a[1]
        bits = INTBITS[ty]
        signed = ty[0] == 'i'
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        if x[0] == 'i' and y[0] == 'i':
            r = PUREARITH[n](x[1], y[1])
            if n.startswith('saturating'):
                return [(st, I(max(lo, min(hi, r))))]
            if n.startswith('wrapping'):
                return [(st, I(r & hi if not signed else r))]
            return [(st, some(I(r)) if lo <= r <= hi else NONE)]
        op = n.split('_')[1]
        if op == 'add' and y == I(0):
            return [(st, x)]
        v = ('s', (op, lv(x), lv(y)))
        if n.startswith('checked'):
            if op == 'sub':
                c = en.cmp_label(st, 'Lt', x, y)
                out = []
                t = en.truth(st, c)
                for w in (0, 1):
                    if t is not None and t != w:
                        continue
                    s = st.copy()
                    if t is None:
                        en.assume(s, c, w)
                    out.append((s, NONE if w else some(v)))
                return out
            s = st.copy()
            return [(s, some(v))]
        return [(st, v)]
    return pure(en, st, fr, a)


def pure(en, st, fr, a):
    """side-effect free library function: result identified by its arguments"""
    name = fr.n
    l = ('ext', name) + tuple(lv(strip(st, x)) for x in a)
    return [(st, lim(l))]


def lim(l):
    """bounded-depth arithmetic terms (widening): beyond the bound, any number"""
    return ('s', l if ('num?',) not in l and label_depth(l) <= LIMITS['depth'] else ('num?',))


def n_opaque(en, st, fr, a):
    return [(st, ('s', ('ext', fr.n, st.fresh())))]


def n_false(en, st, fr, a):
    return [(st, FALSE)]


def n_true(en, st, fr, a):
    return [(st, TRUE)]


def n_unit(en, st, fr, a):
    return [(st, UNIT)]


def n_fmt(en, st, fr, a):
    return [(st, ('s', ('fmt',)))]


def n_fmt_ok(en, st, fr, a):
    return [(st, ok(UNIT))]


def n_default(en, st, fr, a):
    t = fr.targ(0)
    if t is not None:
        v = dflt(en, st, t)
        if v is not None:
            return [(st, v)]
    return [(st, ('s', ('default', t[1] if t and len(t) > 1 else '?')))]


def dflt(en, st, t):
    if t[0] == 'int':
        return I(0)
    if t[0] == 'bool':
        return FALSE
    if t[0] == 'adt':
        k = t[1]
        if k == OPT:
            return NONE
        if k.endswith(('IndexMap', 'HashMap', 'BTreeMap')):
            return lib('IMap')
        if k.endswith(('vec::Vec', 'VecDeque')):
            return lib('Vec')
        if k.endswith('FuturesUnordered'):
            return lib('FU')
        if k == ARC:
            return ('rc', st.new(lib('RcBox', dflt(en, st, t[2][0]) or ('s', ('default', '?')), I(1))))
        if k.endswith('Duration'):
            return ('s', ('dur0',))
        if k.endswith(('OnceLock', 'OnceCell')):
            return lib('Once', NONE)
        if '::atomic::Atomic' in k:
            return lib('Atomic', dflt(en, st, t[2][0]) if t[2] else FALSE if k.endswith('Bool') else I(0))
        if k.endswith(('::Mutex', '::RwLock', '::RefCell', '::Cell')) and t[2]:
            w = dflt(en, st, t[2][-1] if not k.startswith('lock_api') else t[2][-1])
            return w and lib('Mutex' if k.endswith(('Mutex', 'RwLock')) else 'Cell', w)
        if k == BOX:
            w = dflt(en, st, t[2][0])
            return w and ('b', st.new(w))
    if t[0] == 'float':
        return ('f', 0.0)
    if t[0] == 'tuple' and t[1]:
        ws = [dflt(en, st, x) for x in t[1]]
        return None if None in ws else ('t', tuple(ws))
    if t[0] == 'tuple' and not t[1]:
        return UNIT
    return None


# ---- vec / iterators


def vec_ref(en, st, a):
    return en.libref(st, a)


def vec_new(en, st, fr, a):
    return [(st, lib('Vec'))]


def vec_push(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    if len(v[3]) > LIMITS.get('vec', 6):
        return []
    st.put(o, p, ('a', v[1], 0, v[3] + (a[1],)))
    return [(st, UNIT)]


def vec_into_box(en, st, fr, a):
    return [(st, ('b', st.new(a[0])))]


def vec_rotate(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    if a[1][0] != 'i':
        return None
    n = len(v[3])
    k = a[1][1]
    if k > n:
        en.panic(st, 'rotate range')
        return []
    if fr.n == 'rotate_right':
        k = n - k
    st.put(o, p, ('a', v[1], 0, v[3][k:] + v[3][:k]))
    return [(st, UNIT)]


def vec_push_front(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    st.put(o, p, ('a', v[1], 0, (a[1],) + v[3]))
    return [(st, UNIT)]


def vec_pop(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    if not v[3]:
        return [(st, NONE)]
    st.put(o, p, ('a', v[1], 0, v[3][:-1]))
    return [(st, some(v[3][-1]))]


def vec_pop_front(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    if not v[3]:
        return [(st, NONE)]
    st.put(o, p, ('a', v[1], 0, v[3][1:]))
    return [(st, some(v[3][0]))]


def vec_len(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    return [(st, I(len(v[3])))]


def vec_is_empty(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    return [(st, boolv(not v[3]))]


def vec_clear(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    outs = en.drop_fields(st, o, p, len(v[3]))
    for s in outs:
        s.put(o, p, ('a', v[1], 0, ()))
    return [(s, UNIT) for s in outs]


def idx_of(en, st, i, n, body):
    """fork over concrete indices for an opaque one"""
    if i[0] == 'i':
        return [(st, i[1])]
    if i[0] == 's':
        f = st.facts.get(i[1])
        if f is not None:
            return [(st, f)]
        out = []
        for k in range(n):
            s = st.copy()
            s.facts[i[1]] = k
            out.append((s, k))
        s = st.copy()
        s.facts[i[1]] = n
        out.append((s, n))
        return out
    return None


def vec_index(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    if a[1][0] == 'a' and a[1][1].endswith('RangeFull'):
        return [(st, ('r', o, p))]
    r = idx_of(en, st, a[1], len(v[3]), None)
    if r is None:
        return en.havoc(st, 'index', a)
    out = []
    for s, k in r:
        if 0 <= k < len(v[3]):
            out.append((s, ('r', o, p + (k,))))
        elif a[1][0] == 's' and a[1][1][0] in en.trusted_index:
            pass
        else:
            en.panic(s, 'index out of bounds')
    return out


def vec_get(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    r = idx_of(en, st, a[1], len(v[3]), None)
    if r is None:
        return en.havoc(st, 'get', a)
    return [(s, some(('r', o, p + (k,))) if 0 <= k < len(v[3]) else NONE) for s, k in r]


def vec_first(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    return [(st, some(('r', o, p + (0,))) if v[3] else NONE)]


def vec_last(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    return [(st, some(('r', o, p + (len(v[3]) - 1,))) if v[3] else NONE)]


def vec_remove(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    r = idx_of(en, st, a[1], len(v[3]), None)
    if r is None:
        return en.havoc(st, 'remove', a)
    out = []
    deq = 'VecDeque' in (fr.rnp or fr.np)
    for s, k in r:
        if not (0 <= k < len(v[3])):
            if deq:
                out.append((s, NONE))
            else:
                en.panic(s, 'remove out of bounds')
            continue
        x = v[3][k]
        if 'swap_remove' in fr.n and k != len(v[3]) - 1:
            rest = v[3][:k] + (v[3][-1],) + v[3][k + 1:-1]
        else:
            rest = v[3][:k] + v[3][k + 1:]
        s.put(o, p, ('a', v[1], 0, rest))
        out.append((s, some(x) if deq else x))
    return out


def vec_insert(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    k = a[1][1] if a[1][0] == 'i' else 0
    st.put(o, p, ('a', v[1], 0, v[3][:k] + (a[2],) + v[3][k:]))
    return [(st, UNIT)]


def vec_truncate(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    if a[1][0] != 'i':
        return en.havoc(st, 'truncate', a)
    k = a[1][1]
    st.put(o, p, ('a', v[1], 0, v[3][:k]))
    for x in v[3][k:]:
        en.drop_value(st, x)
    return [(st, UNIT)]


def vec_from_elem(en, st, fr, a):
    if a[1][0] != 'i' or a[1][1] > 64 or a[0][0] not in ('i', 'f') and a[0] != NONE:
        return en.havoc(st, 'vec![x; n]', a)
    return [(st, lib('Vec', *([a[0]] * a[1][1])))]


def vec_resize(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    if a[1][0] != 'i' or a[1][1] > 64:
        return en.havoc(st, 'resize', a)
    n = a[1][1] - len(v[3])
    if n <= 0:
        return vec_truncate(en, st, fr, a)
    if fr.n == 'resize':
        if a[2][0] not in ('i', 'f') and a[2] != NONE:
            return en.havoc(st, 'resize', a)
        st.put(o, p, ('a', v[1], 0, v[3] + (a[2],) * n))
        return [(st, UNIT)]
    states = [st]
    ob = None
    for _ in range(n):
        nx = []
        for s in states:
            f = ('r', s.new(a[2]), ()) if a[2][0] != 'fn' else a[2]
            for s2, x in en.call_value(s, f, []):
                w = s2.get(o, p)
                s2.put(o, p, ('a', w[1], 0, w[3] + (x,)))
                nx.append(s2)
        states = nx
    return [(s, UNIT) for s in states]


def vec_retain(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    f = ('r', st.new(a[1]), ())
    work = [(st, 0, 0)]
    out = []
    while work:
        s, i, seen = work.pop()
        w = s.get(o, p)
        if i >= len(w[3]):
            out.append((s, UNIT))
            continue
        for s2, b in en.call_value(s, f, [('r', o, p + (i,))]):
            for s3, t in branch(en, s2, b):
                if not t:
                    w = s3.get(o, p)
                    s3.put(o, p, ('a', w[1], 0, w[3][:i] + w[3][i + 1:]))
                    en.drop_value(s3, w[3][i])
                work.append((s3, i + 1 if t else i, 0))
    return out


def vec_append(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    o2, p2, w = vec_ref(en, st, a[1])
    st.put(o, p, ('a', v[1], 0, v[3] + w[3]))
    st.put(o2, p2, ('a', w[1], 0, ()))
    return [(st, UNIT)]


def vec_fill(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    if a[1][0] not in ('i', 'f') and a[1] != NONE:
        return en.havoc(st, 'fill', a)
    for x in v[3]:
        en.drop_value(st, x)
    st.put(o, p, ('a', v[1], 0, (a[1],) * len(v[3])))
    return [(st, UNIT)]


def vec_swap(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    out = []
    for s, i in idx_of(en, st, a[1], len(v[3]), None) or [(st, None)]:
        for s2, j in (idx_of(en, s, a[2], len(v[3]), None) or [(s, None)]) if i is not None else [(s, None)]:
            if j is None:
                out += en.havoc(s2, 'swap', a)
            elif not (0 <= i < len(v[3]) and 0 <= j < len(v[3])):
                en.panic(s2, 'swap out of bounds')
            else:
                xs = list(s2.get(o, p)[3])
                xs[i], xs[j] = xs[j], xs[i]
                s2.put(o, p, ('a', v[1], 0, tuple(xs)))
                out.append((s2, UNIT))
    return out


def vec_split_off(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    if a[1][0] != 'i':
        return en.havoc(st, 'split_off', a)
    k = a[1][1]
    if k > len(v[3]):
        en.panic(st, 'split_off')
        return []
    st.put(o, p, ('a', v[1], 0, v[3][:k]))
    return [(st, ('a', v[1], 0, v[3][k:]))]


# ---- cells


def once_new(en, st, fr, a):
    return [(st, lib('Once', NONE))]


def once_get(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    if v[3][0] == NONE:
        return [(st, NONE)]
    return [(st, some(('r', o, p + (0, 0))))]


def once_set(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    en.emit(st, 'lock', ('r', o, p))
    if v[3][0] != NONE:
        en.emit(st, 'unlock', ('r', o, p))
        return [(st, err(a[1]))]
    st.put(o, p + (0,), some(a[1]))
    en.emit(st, 'unlock', ('r', o, p))
    return [(st, ok(UNIT))]


def once_init(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    if v[3][0] != NONE:
        return [(st, ('r', o, p + (0, 0)))]
    out = []
    for s, x in en.call_value(st, a[1], []):
        s.put(o, p + (0,), some(x))
        out.append((s, ('r', o, p + (0, 0))))
    return out


def once_take(en, st, fr, a):
    if a[0][0] != 'r':
        return [(st, a[0][3][0])]
    o, p, v = en.libref(st, a[0])
    st.put(o, p + (0,), NONE)
    return [(st, v[3][0])]


def cell_new(en, st, fr, a):
    return [(st, lib('Cell', a[0]))]


def cell_get(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    return [(st, v[3][0])]


def cell_set(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    st.put(o, p + (0,), a[1])
    if fr.n == 'set':
        en.drop_value(st, v[3][0])
        return [(st, UNIT)]
    return [(st, v[3][0])]


def cell_take(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    return n_take(en, st, fr, [('r', o, p + (0,))])


def cell_ref(en, st, fr, a):
    """RefCell::borrow/borrow_mut, Cell::get_mut"""
    o, p, v = en.libref(st, a[0])
    return [(st, ('r', o, p + (0,)))]


def cell_into(en, st, fr, a):
    return [(st, a[0][3][0])]


def vec_contains(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    x = strip(st, a[1])
    for e in v[3]:
        e = strip(st, e)
        r = en.cmp_label(st, 'Eq', e, x)
        if r == TRUE:
            return [(st, TRUE)]
        if r != FALSE:
            return [(st, ('s', ('contains', st.fresh())))]
    return [(st, FALSE)]


def vec_iter(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    return [(st, lib('Iter', ('t', tuple(('r', o, p + (i,)) for i in range(len(v[3]))))))]


def vec_into_iter(en, st, fr, a):
    if a[0][0] == 'r':
        return vec_iter(en, st, fr, a)
    v = strip(st, a[0])
    return [(st, lib('Iter', ('t', v[3])))]


def vec_drain(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    lo, hi = 0, len(v[3])
    if len(a) > 1:
        r = strip(st, a[1])
        k = r[1].rsplit('::', 1)[-1] if r[0] == 'a' and type(r[1]) is str else '?'
        e = [x[1] if x[0] == 'i' and type(x[1]) is int else None for x in r[3]] if r[0] == 'a' else []
        if k == 'RangeFull' or (r[0] == 'a' and not r[3]):
            pass
        elif k in ('Range', 'RangeFrom', 'RangeTo', 'RangeToInclusive') and None not in e:
            if k == 'Range':
                lo, hi = e
            elif k == 'RangeFrom':
                lo = e[0]
            elif k == 'RangeTo':
                hi = e[0]
            else:
                hi = e[0] + 1
            if not lo <= hi <= len(v[3]):
                en.panic(st, 'drain range')
                return []
        else:
            return en.havoc(st, 'drain', a)
    st.put(o, p, ('a', v[1], 0, v[3][:lo] + v[3][hi:]))
    return [(st, lib('Iter', ('t', v[3][lo:hi])))]


def vec_self(en, st, fr, a):
    return [(st, a[0])]


def vec_extend(en, st, fr, a):
    o, p, v = vec_ref(en, st, a[0])
    outs = []
    for s, items in iter_all(en, st, a[1]):
        if items is None:
            outs += en.havoc(s, 'extend', a)
            continue
        v = s.get(o, p)
        s.put(o, p, ('a', v[1], 0, v[3] + tuple(items)))
        outs.append((s, UNIT))
    return outs


ITERS = ('lib:Iter', 'lib:MapIter', 'lib:Enum', 'lib:FilterIter', 'lib:FMapIter', 'lib:TakeWhile', 'lib:Zip', 'lib:Inspect', 'lib:FromFn', 'lib:Flat', 'lib:Chain', 'lib:Take')
RANGE = 'core::ops::range::Range'


def iter_next(en, st, it):
    """[(state, item or None, new iterator)]"""
    k = it[1] if it[0] == 'a' else None
    if k == 'lib:Iter':
        items = it[3][0][1]
        if not items:
            return [(st, None, it)]
        return [(st, items[0], lib('Iter', ('t', items[1:])))]
    if k == RANGE:
        lo, hi = it[3]
        if lo[0] == 'i' and hi[0] == 'i':
            if lo[1] < hi[1]:
                return [(st, lo, ('a', RANGE, 0, (I(lo[1] + 1), hi)))]
            return [(st, None, it)]
        return None
    if k == 'lib:Enum':
        r = iter_next(en, st, it[3][0])
        if r is None:
            return None
        return [(s, None if x is None else ('t', (it[3][1], x)), lib('Enum', n, it[3][1] if x is None else I(it[3][1][1] + 1))) for s, x, n in r]
    if k == 'lib:MapIter':
        r = iter_next(en, st, it[3][0])
        if r is None:
            return None
        out = []
        for s, x, n in r:
            if x is None:
                out.append((s, None, lib('MapIter', n, it[3][1])))
            else:
                for s2, y in en.call_value(s, it[3][1], [x]):
                    out.append((s2, y, lib('MapIter', n, it[3][1])))
        return out
    if k == 'lib:FilterIter':
        out = []
        work = [(st, it[3][0])]
        while work:
            s, inner = work.pop()
            r = iter_next(en, s, inner)
            if r is None:
                return None
            for s2, x, n in r:
                if x is None:
                    out.append((s2, None, lib('FilterIter', n, it[3][1])))
                    continue
                ob = s2.new(x)
                for s3, b in en.call_value(s2, it[3][1], [('r', ob, ())]):
                    for s4, t in branch(en, s3, b):
                        if t:
                            out.append((s4, s4.get(ob, ()), lib('FilterIter', n, it[3][1])))
                        else:
                            work.append((s4, n))
        return out
    if k == 'lib:FMapIter':
        out = []
        work = [(st, it[3][0])]
        while work:
            s, inner = work.pop()
            r = iter_next(en, s, inner)
            if r is None:
                return None
            for s2, x, n in r:
                if x is None:
                    out.append((s2, None, lib('FMapIter', n, it[3][1])))
                    continue
                for s3, y in en.call_value(s2, it[3][1], [x]):
                    ws = opts(en, s3, y)
                    if ws is None:
                        return None
                    for s4, w in ws:
                        if w is None:
                            work.append((s4, n))
                        else:
                            out.append((s4, w, lib('FMapIter', n, it[3][1])))
        return out
    if k == 'lib:TakeWhile':
        if it[3][2] == TRUE:
            return [(st, None, it)]
        r = iter_next(en, st, it[3][0])
        if r is None:
            return None
        out = []
        for s2, x, n in r:
            if x is None:
                out.append((s2, None, lib('TakeWhile', n, it[3][1], FALSE)))
                continue
            ob = s2.new(x)
            for s3, b in en.call_value(s2, it[3][1], [('r', ob, ())]):
                for s4, t in branch(en, s3, b):
                    if t:
                        out.append((s4, s4.get(ob, ()), lib('TakeWhile', n, it[3][1], FALSE)))
                    else:
                        en.drop_value(s4, s4.get(ob, ()))
                        out.append((s4, None, lib('TakeWhile', n, it[3][1], TRUE)))
        return out
    if k == 'lib:Take':
        if it[3][1][1] <= 0:
            return [(st, None, it)]
        r = iter_next(en, st, it[3][0])
        return r and [(s, x, lib('Take', n, I(it[3][1][1] - 1))) for s, x, n in r]
    if k == 'lib:Inspect':
        r = iter_next(en, st, it[3][0])
        if r is None:
            return None
        out = []
        for s2, x, n in r:
            if x is None:
                out.append((s2, None, lib('Inspect', n, it[3][1])))
                continue
            ob = s2.new(x)
            for s3, b in en.call_value(s2, it[3][1], [('r', ob, ())]):
                out.append((s3, s3.get(ob, ()), lib('Inspect', n, it[3][1])))
        return out
    if k == 'lib:Zip':
        r = iter_next(en, st, it[3][0])
        if r is None:
            return None
        out = []
        for s2, x, n in r:
            if x is None:
                out.append((s2, None, lib('Zip', n, it[3][1])))
                continue
            r2 = iter_next(en, s2, it[3][1])
            if r2 is None:
                return None
            out += [(s3, None if y is None else ('t', (x, y)), lib('Zip', n, n2)) for s3, y, n2 in r2]
        return out
    if k == 'lib:Chain':
        r = iter_next(en, st, it[3][0])
        if r is None:
            return None
        out = []
        for s2, x, n in r:
            if x is not None:
                out.append((s2, x, lib('Chain', n, it[3][1])))
                continue
            r2 = iter_next(en, s2, it[3][1])
            if r2 is None:
                return None
            out += [(s3, y, lib('Chain', n, n2)) for s3, y, n2 in r2]
        return out
    if k == 'lib:FromFn':
        ob = st.new(it[3][0])
        out = []
        for s2, y in en.call_value(st, ('r', ob, ()), []):
            f = s2.get(ob, ())
            if opts(en, s2, y) is None:
                return None
            out += [(s3, w, lib('FromFn', f)) for s3, w in opts(en, s2, y)]
        return out
    if k == 'lib:Flat':
        out = []
        work = [(st, it[3][0], it[3][1])]
        while work:
            s, outer, inner = work.pop()
            r = iter_next(en, s, inner)
            if r is None:
                return None
            for s2, x, n in r:
                if x is not None:
                    out.append((s2, x, lib('Flat', outer, n)))
                    continue
                r2 = iter_next(en, s2, outer)
                if r2 is None:
                    return None
                for s3, y, n2 in r2:
                    if y is None:
                        out.append((s3, None, lib('Flat', n2, n)))
                        continue
                    for s4, j in as_iter(en, s3, y) or [(None, None)]:
                        if j is None:
                            return None
                        work.append((s4, n2, j))
        return out
    return None


def opts(en, st, v):
    """the alternatives of a structured Option value: (state, payload or None)"""
    if v[0] == 'a' and v[1] == OPT:
        return [(st, v[3][0] if v[2] == 1 else None)]
    return None


def as_iter(en, st, a):
    """IntoIterator::into_iter of a model value: [(state, iterator)] or None"""
    if a[0] == 'a' and is_iter(a):
        return [(st, a)]
    if a[0] == 'a' and a[1] == OPT:
        return [(st, lib('Iter', ('t', a[3])))]
    if a[0] == 'a' and a[1] == RES:
        return [(st, lib('Iter', ('t', a[3] if a[2] == 0 else ())))]
    if a[0] == 'a' and a[1] == 'lib:Vec':
        return [(st, lib('Iter', ('t', tuple(a[3]))))]
    if a[0] in ('arr', 't') and a[0] == 'arr':
        return [(st, lib('Iter', ('t', tuple(a[1]))))]
    return None


def n_array_map(en, st, fr, a):
    v = a[0]
    if v[0] != 'arr':
        return en.havoc(st, 'array::map', a)
    work = [(st, ())]
    for x in v[1]:
        work = [(s2, acc + (y,)) for s, acc in work for s2, y in en.call_value(s, a[1], [x])]
    return [(s, ('arr', acc)) for s, acc in work]


def n_iter_once(en, st, fr, a):
    return [(st, lib('Iter', ('t', (a[0],))))]


def n_iter_empty(en, st, fr, a):
    return [(st, lib('Iter', ('t', ())))]


def n_iter_from_fn(en, st, fr, a):
    return [(st, lib('FromFn', a[0]))]


def branch(en, st, b):
    t = en.truth(st, b)
    if t is not None:
        return [(st, t)]
    s2 = st.copy()
    en.assume(st, b, 1)
    en.assume(s2, b, 0)
    return [(st, 1), (s2, 0)]


def iter_all(en, st, it):
    """[(state, [items])]"""
    if it[0] == 'a' and it[1] == 'lib:Vec':
        return [(st, list(it[3]))]
    if it[0] == 'r':
        v = strip(st, it)
        if v[0] == 'a' and v[1] == 'lib:Vec':
            o, p, w = en.libref(st, it)
            return [(st, [('r', o, p + (i,)) for i in range(len(w[3]))])]
        it = v
    if it[0] == 's':
        return [(st, None)]
    out = []
    work = [(st, it, [])]
    while work:
        s, i, acc = work.pop()
        if len(acc) > max(8, LIMITS.get('vec', 6)):
            raise Limit()
        r = iter_next(en, s, i)
        if r is None:
            out.append((s, None))
            continue
        for s2, x, n in r:
            if x is None:
                out.append((s2, acc))
            else:
                work.append((s2, n, acc + [x]))
    return out


def is_iter(v):
    return v[0] == 'a' and (v[1] in ITERS or v[1] == RANGE)


def it_next(en, st, fr, a):
    o, p = st.deref(a[0])
    it = st.get(o, p)
    r = iter_next(en, st, it)
    if r is None:
        return en.havoc(st, 'Iterator::next', a)
    out = []
    for s, x, n in r:
        s.put(o, p, n)
        out.append((s, NONE if x is None else some(x)))
    return out


def iterator_trait(en, st, fr, args, v, o, p):
    """Iterator methods on model iterators"""
    name = fr.n
    it = args[0]
    if it[0] == 'a' and it[1] in ('core::option::IntoIter', 'core::option::Iter', 'core::option::IterMut', 'core::option::Item',
                                  'core::result::IntoIter', 'core::result::Iter', 'core::result::IterMut'):
        w = it
        while w[0] == 'a' and w[1] != OPT and len(w[3]) == 1:
            w = w[3][0]
        if w[0] == 'a' and w[1] == OPT:
            it = lib('Iter', ('t', w[3]))
            args = [it] + list(args[1:])
            v, o, p = it, None, None
    if name == 'next':
        if v[0] == 'a' and is_iter(v):
            return it_next(en, st, fr, args)
        return None
    src = it if it[0] != 'r' else strip(st, it)
    if not is_iter(src):
        if src[0] == 's':
            return None
        return None
    if name == 'map':
        return [(st, lib('MapIter', it, args[1]))]
    if name == 'enumerate':
        return [(st, lib('Enum', it, I(0)))]
    if name == 'filter':
        return [(st, lib('FilterIter', it, args[1]))]
    if name in ('by_ref', 'into_iter', 'copied', 'fuse'):
        return [(st, it)]
    if name == 'cloned':
        return [(st, it)]
    if name == 'filter_map':
        return [(st, lib('FMapIter', it, args[1]))]
    if name == 'take_while':
        return [(st, lib('TakeWhile', it, args[1], FALSE))]
    if name == 'inspect':
        return [(st, lib('Inspect', it, args[1]))]
    if name == 'zip':
        js = as_iter(en, st, args[1])
        return [(s, lib('Zip', it, j)) for s, j in js] if js else None
    if name == 'flatten':
        return [(st, lib('Flat', it, lib('Iter', ('t', ()))))]
    if name == 'flat_map':
        return [(st, lib('Flat', lib('MapIter', it, args[1]), lib('Iter', ('t', ()))))]
    if name in ('try_for_each', 'try_fold'):
        return try_iter(en, st, fr, args, src, name)
    if name == 'nth' and args[0][0] == 'r' and args[1][0] == 'i':
        out = []
        work = [(st, src, args[1][1])]
        while work:
            s, i, k = work.pop()
            r = iter_next(en, s, i)
            if r is None:
                return None
            for s2, x, n in r:
                if x is not None and k:
                    work.append((s2, n, k - 1))
                    continue
                s2.put(*st.deref(args[0]), n)
                out.append((s2, NONE if x is None else some(x)))
        return out
    if name in ('min_by_key', 'max_by_key', 'max', 'min'):
        return extreme(en, st, fr, args, src, name)
    if name == 'rev':
        out = []
        for s, items in iter_all(en, st, src):
            if items is None:
                return None
            out.append((s, lib('Iter', ('t', tuple(reversed(items))))))
        return out
    if name == 'chain':
        js = as_iter(en, st, args[1])
        return [(s, lib('Chain', it, j)) for s, j in js] if js else None
    if name == 'take' or name == 'skip':
        if args[1][0] != 'i':
            return None
        if name == 'take' and it[0] != 'r':
            return [(st, lib('Take', it, args[1]))]
        out = []
        for s, items in iter_all(en, st, src):
            if items is None:
                return None
            n = args[1][1]
            out.append((s, lib('Iter', ('t', tuple(items[:n] if name == 'take' else items[n:])))))
        return out
    if name in ('collect', 'fold', 'sum', 'count', 'for_each', 'any', 'all', 'find', 'position', 'last', 'find_map', 'product'):
        out = []
        if name == 'fold':
            work = [(st, src, args[1])]
            while work:
                s, i, acc = work.pop()
                r = iter_next(en, s, i)
                if r is None:
                    return None
                for s2, x, n in r:
                    if x is None:
                        out.append((s2, acc))
                    else:
                        for s3, y in en.call_value(s2, args[2], [acc, x]):
                            work.append((s3, n, y))
            return out
        if name in ('any', 'all', 'find', 'position', 'for_each', 'find_map'):
            work = [(st, src, 0)]
            k = 0
            while work:
                k += 1
                if k > 3000:
                    raise Limit()
                s, i, idx = work.pop()
                r = iter_next(en, s, i)
                if r is None:
                    return None
                for s2, x, n in r:
                    if x is None:
                        out.append((s2, {'any': FALSE, 'all': TRUE, 'find': NONE, 'position': NONE, 'for_each': UNIT, 'find_map': NONE}[name]))
                        continue
                    arg = x
                    if name == 'find':
                        arg = ('r', s2.new(x), ())
                    for s3, y in en.call_value(s2, args[1], [arg]):
                        if name == 'for_each':
                            work.append((s3, n, idx + 1))
                            continue
                        if name == 'find_map':
                            if y[0] == 'a' and y[2] == 0:
                                work.append((s3, n, idx + 1))
                            else:
                                out.append((s3, y))
                            continue
                        for s4, t in branch(en, s3, y):
                            if (name == 'all') != bool(t):
                                out.append((s4, {'any': TRUE, 'all': FALSE, 'find': some(x), 'position': some(I(idx))}[name]))
                                if args[0][0] == 'r':
                                    s4.put(*st.deref(args[0]), n)
                            else:
                                work.append((s4, n, idx + 1))
            return out
        for s, items in iter_all(en, st, src):
            if items is None:
                return None
            if name == 'collect':
                if items and all(x[0] == 'a' and x[1] == RES for x in items) and False:
                    pass
                out.append((s, lib('Vec', *items)))
            elif name == 'count':
                out.append((s, I(len(items))))
            elif name == 'last':
                out.append((s, some(items[-1]) if items else NONE))
            elif name == 'sum':
                acc = I(0)
                for x in items:
                    acc = en.binop(s, 'Add', acc, strip(s, x), ('int', 'i64', True))
                out.append((s, acc))
            elif name == 'product':
                return None
        return out
    if name in ('len', 'size_hint'):
        out = []
        for s, items in iter_all(en, st.copy(), src):
            if items is None:
                return None
            out.append((s, I(len(items)) if name == 'len' else ('t', (I(len(items)), some(I(len(items)))))))
        return out
    return None


def try_iter(en, st, fr, args, src, name):
    """try_for_each / try_fold over Result, Option or ControlFlow"""
    t = None
    for i in (3, 2):
        t = t or fr.targ(i)
    if t is None or t[0] != 'adt':
        return None
    good = {RES: 0, OPT: 1, CF: 0, POLL: None}.get(t[1])
    if good is None:
        return None
    f, acc = (args[1], UNIT) if name == 'try_for_each' else (args[2], args[1])
    out = []
    work = [(st, src, acc)]
    n = 0
    while work:
        s, i, acc = work.pop()
        n += 1
        if n > 3000:
            raise Limit()
        r = iter_next(en, s, i)
        if r is None:
            return None
        for s2, x, nx in r:
            if x is None:
                if args[0][0] == 'r':
                    s2.put(*s2.deref(args[0]), nx)
                out.append((s2, ('a', t[1], good, (acc,))))
                continue
            for s3, y in en.call_value(s2, f, [x] if name == 'try_for_each' else [acc, x]):
                if y[0] != 'a':
                    return None
                if y[2] == good:
                    work.append((s3, nx, y[3][0]))
                else:
                    if args[0][0] == 'r':
                        s3.put(*s3.deref(args[0]), nx)
                    out.append((s3, y))
    return out


def extreme(en, st, fr, args, src, name):
    """the first least or the last greatest item"""
    out = []
    work = [(st, src, None, None)]
    while work:
        s, i, best, bk = work.pop()
        r = iter_next(en, s, i)
        if r is None:
            return None
        for s2, x, n in r:
            if x is None:
                out.append((s2, NONE if best is None else some(best)))
                continue
            ks = en.call_value(s2, args[1], [('r', s2.new(x), ())]) if name.endswith('_by_key') else [(s2, x)]
            for s3, k in ks:
                k = strip(s3, k)
                if k[0] not in ('i', 's', 'f'):
                    return None
                if best is None:
                    work.append((s3, n, x, k))
                    continue
                b = en.binop(s3, 'Lt', k, bk, ('int', 'u64', False))
                for s4, t in branch(en, s3, b):
                    new = bool(t) == name.startswith('min')
                    work.append((s4, n, x if new else best, k if new else bk))
    return out


def into_iter_trait(en, st, fr, args, v, o, p):
    a = args[0]
    if a[0] == 'a' and is_iter(a):
        return [(st, a)]
    if a[0] == 'a' and a[1] == 'lib:Vec':
        return [(st, lib('Iter', ('t', a[3])))]
    if a[0] == 'r':
        w = strip(st, a)
        if w[0] == 'a' and w[1] == 'lib:Vec':
            return vec_iter(en, st, fr, args)
        if w[0] == 'a' and w[1] == 'lib:IMap':
            return im_iter(en, st, fr, args)
    if a[0] == 'a' and a[1] == 'lib:IMap':
        return [(st, lib('Iter', ('t', a[3])))]
    if a[0] == 'arr':
        return [(st, lib('Iter', ('t', a[1])))]
    if a[0] == 's':
        return [(st, a)]
    return as_iter(en, st, a)


def fromiter_trait(en, st, fr, args, v, o, p):
    out = []
    for s, items in iter_all(en, st, args[0]):
        if items is None:
            return None
        out.append((s, lib('Vec', *items)))
    return out


# ---- index map (entries are (key, value) tuples)


def im_ref(en, st, a):
    return en.libref(st, a)


def im_find(en, st, v, key):
    key = strip(st, key)
    for i, e in enumerate(v[3]):
        if e[1][0] == key or strip(st, e[1][0]) == key:
            return i
    return None


def im_contains(en, st, fr, a):
    o, p, v = im_ref(en, st, a[0])
    return [(st, boolv(im_find(en, st, v, a[1]) is not None))]


def im_get(en, st, fr, a):
    o, p, v = im_ref(en, st, a[0])
    i = im_find(en, st, v, a[1])
    if i is None:
        return [(st, NONE)]
    n = fr.n
    kr, vr = ('r', o, p + (i, 0)), ('r', o, p + (i, 1))
    if n.startswith('get_full'):
        return [(st, some(('t', (I(i), kr, vr))))]
    if n.startswith('get_key_value'):
        return [(st, some(('t', (kr, vr))))]
    if n == 'get_index_of':
        return [(st, some(I(i)))]
    return [(st, some(vr))]


def im_get_index(en, st, fr, a):
    o, p, v = im_ref(en, st, a[0])
    r = idx_of(en, st, a[1], len(v[3]), None)
    if r is None:
        return en.havoc(st, 'get_index', a)
    out = []
    for s, i in r:
        if 0 <= i < len(v[3]):
            out.append((s, some(('t', (('r', o, p + (i, 0)), ('r', o, p + (i, 1)))))))
        else:
            out.append((s, NONE))
    return out


def im_insert(en, st, fr, a):
    o, p, v = im_ref(en, st, a[0])
    i = im_find(en, st, v, a[1])
    if i is not None:
        old = v[3][i][1][1]
        st.put(o, p + (i, 1), a[2])
        r = some(old)
        idx = i
    else:
        if len(v[3]) > 5:
            return []
        st.put(o, p, ('a', v[1], 0, v[3] + (('t', (a[1], a[2])),)))
        r = NONE
        idx = len(v[3])
    if fr.n == 'insert_full':
        r = ('t', (I(idx), r))
    return [(st, r)]


def im_remove_at(st, o, p, v, i, n):
    e = v[3][i]
    if 'swap' in n:
        if i != len(v[3]) - 1:
            rest = v[3][:i] + (v[3][-1],) + v[3][i + 1:-1]
        else:
            rest = v[3][:-1]
    else:
        rest = v[3][:i] + v[3][i + 1:]
    st.put(o, p, ('a', v[1], 0, rest))
    return e


def im_remove(en, st, fr, a):
    o, p, v = im_ref(en, st, a[0])
    n = fr.n
    if n.endswith('_index'):
        r = idx_of(en, st, a[1], len(v[3]), None)
        if r is None:
            return en.havoc(st, n, a)
        out = []
        for s, i in r:
            if 0 <= i < len(v[3]):
                e = im_remove_at(s, o, p, v, i, n)
                out.append((s, some(e)))
            else:
                out.append((s, NONE))
        return out
    i = im_find(en, st, v, a[1])
    if i is None:
        return [(st, NONE)]
    e = im_remove_at(st, o, p, v, i, n if 'swap' in n or 'shift' in n else 'swap')
    if 'full' in n:
        return [(st, some(('t', (I(i), e[1][0], e[1][1]))))]
    if 'entry' in n:
        return [(st, some(e))]
    # the stored key is dropped, the value returned
    outs = en.drop_value(st, e[1][0])
    return [(s, some(e[1][1])) for s in outs]


HENTRY = 'lib:HEntry'


def im_entry(en, st, fr, a):
    o, p, v = im_ref(en, st, a[0])
    i = im_find(en, st, v, a[1])
    return [(st, ('a', HENTRY, 0 if i is not None else 1, (lib('MEntry', ('r', o, p), a[1]),)))]


def entry_ref(en, st, e):
    """(map object, path, map value, key, index or None)"""
    e = strip(st, e)
    if e[1] == HENTRY:
        e = e[3][0]
    r, key = e[3]
    v = st.get(r[1], r[2])
    return r[1], r[2], v, key, im_find(en, st, v, key)


def entry_or(en, st, fr, a):
    o, p, v, key, i = entry_ref(en, st, a[0])
    if i is not None:
        outs = [st]
        if len(a) > 1:
            outs = en.drop_value(st, a[1])
        return [(s, ('r', o, p + (i, 1))) for s in outs]
    if fr.n == 'or_insert':
        vals = [(st, a[1])]
    elif fr.n == 'or_insert_with':
        vals = en.call_value(st, a[1], [])
    elif fr.n == 'or_insert_with_key':
        vals = en.call_value(st, a[1], [('r', st.new(key), ())])
    else:
        vals = n_default(en, st, fr, [])
    out = []
    for s, x in vals:
        w = s.get(o, p)
        s.put(o, p, ('a', w[1], 0, w[3] + (('t', (key, x)),)))
        out.append((s, ('r', o, p + (len(w[3]), 1))))
    return out


def entry_modify(en, st, fr, a):
    o, p, v, key, i = entry_ref(en, st, a[0])
    if i is None:
        return [(s, a[0]) for s in en.drop_value(st, a[1])]
    return [(s, a[0]) for s, _ in en.call_value(st, a[1], [('r', o, p + (i, 1))])]


def entry_get(en, st, fr, a):
    o, p, v, key, i = entry_ref(en, st, a[0])
    if fr.n == 'key':
        return [(st, ('r', st.new(key), ()))]
    return [(st, ('r', o, p + (i, 1)))]


def entry_insert(en, st, fr, a):
    o, p, v, key, i = entry_ref(en, st, a[0])
    if i is None:
        st.put(o, p, ('a', v[1], 0, v[3] + (('t', (key, a[1])),)))
        return [(st, ('r', o, p + (len(v[3]), 1)))]
    old = v[3][i][1][1]
    st.put(o, p + (i, 1), a[1])
    return [(st, old)]


def entry_remove(en, st, fr, a):
    o, p, v, key, i = entry_ref(en, st, a[0])
    e = im_remove_at(st, o, p, v, i, 'shift')
    return [(st, e if 'entry' in fr.n else e[1][1])]


def im_into(en, st, fr, a):
    v = strip(st, a[0])
    i = 1 if fr.n == 'into_values' else 0
    states = [st]
    for e in v[3]:
        states = [s2 for s in states for s2 in en.drop_value(s, e[1][1 - i])]
    it = lib('Iter', ('t', tuple(e[1][i] for e in v[3])))
    return [(s, it) for s in states]


def im_drain(en, st, fr, a):
    return vec_drain(en, st, fr, a[:1])


def im_retain(en, st, fr, a):
    o, p, v = im_ref(en, st, a[0])
    states = [(st, 0)]
    for _ in range(len(v[3])):
        nx = []
        for s, i in states:
            for s2, b in en.call_value(s, a[1], [('r', o, p + (i, 0)), ('r', o, p + (i, 1))]):
                for s3, keep in branch(en, s2, b):
                    if keep:
                        nx.append((s3, i + 1))
                    else:
                        w = s3.get(o, p)
                        e = w[3][i]
                        s3.put(o, p, ('a', w[1], 0, w[3][:i] + w[3][i + 1:]))
                        nx += [(s4, i) for s4 in en.drop_value(s3, e)]
        states = nx
    return [(s, UNIT) for s, _ in states]


def tt_spawn(en, st, fr, a):
    return [(st, lib('TtSpawn', a[0]))]


def tt_enter(en, st, fr, a):
    """tokio_test Spawn::enter: the closure runs with the mock task's own waker"""
    o, p, v = en.libref(st, a[0])
    cx = ('r', st.new(lib('Cx', ('s', ('waker', 'tt')))), ())
    old = st.g.get('cur')
    st.g['cur'] = 'tt'
    out = []
    for s, r in en.call_value(st, a[1], [cx, pin(('r', o, p + (0,)))]):
        if old is None:
            s.g.pop('cur', None)
        else:
            s.g['cur'] = old
        out.append((s, r))
    return out


def mp_recv_fut(en, st, fr, a):
    return [(st, lib('Recv', a[0]))]


def mp_recv_poll(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    return mp_recv(en, st, fr, [v[3][0], a[1]])


def im_iter(en, st, fr, a):
    o, p, v = im_ref(en, st, a[0])
    n = fr.n if fr is not None else 'iter'
    rng = range(len(v[3]))
    if n.startswith('keys'):
        it = tuple(('r', o, p + (i, 0)) for i in rng)
    elif n.startswith('values'):
        it = tuple(('r', o, p + (i, 1)) for i in rng)
    else:
        it = tuple(('t', (('r', o, p + (i, 0)), ('r', o, p + (i, 1)))) for i in rng)
    return [(st, lib('Iter', ('t', it)))]


# ---- cells, locks, atomics


def mutex_new(en, st, fr, a):
    return [(st, lib('Mutex', a[0]))]


def mutex_lock(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    k = ('r', o, p)
    locks = st.g.get('locks', frozenset())
    if k in locks:
        en.violate(st, 'lock', 'relock', 'mutex locked while the same thread holds it')
        return []
    st.g['locks'] = locks | {k}
    en.emit(st, 'lock', k)
    g = lib('Guard', ('r', o, p + (0,)))
    if fr.n == 'try_lock':
        pass
    return [(st, ok(g))]


def guard_deref(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    return [(st, v[3][0])]


def guard_drop(en, st, obj, path, v):
    r = v[3][0]
    k = ('r', r[1], r[2][:-1])
    l = st.g.get('locks', frozenset()) - {k}
    if l:
        st.g['locks'] = l
    else:
        st.g.pop('locks', None)
    en.emit(st, 'unlock', k)
    return [st]


def mutex_get_mut(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    return [(st, ok(('r', o, p + (0,))))]


def atomic_new(en, st, fr, a):
    return [(st, lib('Atomic', a[0] if a else I(0)))]


def atomic_load(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    r = en.atomic_read(st, ('r', o, p), v[3][0])
    en.emit(st, 'atomic.load', ('r', o, p), r)
    return [(st, r)]


def atomic_store(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    st.put(o, p + (0,), a[1])
    en.emit(st, 'atomic.store', ('r', o, p), a[1])
    return [(st, UNIT)]


def atomic_rmw(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    old = en.atomic_read(st, ('r', o, p), v[3][0])
    n = fr.n
    if n == 'swap':
        nv = a[1]
    elif n == 'fetch_add':
        nv = en.binop(st, 'Add', old, a[1], ('int', 'i64', True))
    elif n == 'fetch_sub' and old[0] == 's' and old == a[1]:
        nv = I(0)
    elif n == 'fetch_sub':
        nv = en.binop(st, 'Sub', old, a[1], ('int', 'i64', True))
    elif n == 'fetch_or':
        nv = en.binop(st, 'BitOr', old, a[1], ('bool',))
    elif n == 'fetch_and':
        nv = en.binop(st, 'BitAnd', old, a[1], ('bool',))
    else:
        nv = TOP
    st.put(o, p + (0,), nv)
    en.emit(st, 'atomic.rmw', ('r', o, p), n, a[1])
    return [(st, old)]


def atomic_cas(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    old = en.atomic_read(st, ('r', o, p), v[3][0])
    c = en.cmp_label(st, 'Eq', old, a[1])
    out = []
    for s, t in branch(en, st, c):
        if t:
            s.put(o, p + (0,), a[2])
            en.emit(s, 'atomic.rmw', ('r', o, p), fr.n, a[2])
            out.append((s, ok(old)))
        else:
            out.append((s, err(old)))
    return out


def atomic_update(en, st, fr, a):
    """fetch_update(set, fetch, f)"""
    o, p, v = en.libref(st, a[0])
    old = en.atomic_read(st, ('r', o, p), v[3][0])
    out = []
    for s, r in en.call_value(st, a[3], [old]):
        if r[0] == 'a' and r[2] == 1:
            s.put(o, p + (0,), r[3][0])
            en.emit(s, 'atomic.rmw', ('r', o, p), 'fetch_update', r[3][0])
            out.append((s, ok(old)))
        elif r[0] == 'a':
            out.append((s, err(old)))
        else:
            out += en.havoc(s, 'fetch_update', a)
    return out


# ---- wakers


def cx_waker_n(en, st, fr, a):
    v = strip(st, a[0])
    if v[0] == 'a' and v[1] == 'lib:Cx':
        w = v[3][0]
        if w[0] == 'r':
            return [(st, w)]
        return [(st, ('r', st.new(w), ()))]
    return [(st, ('r', st.new(('s', ('waker', '?'))), ()))]


def cx_from_waker(en, st, fr, a):
    return [(st, lib('Cx', a[0]))]


def waker_label(st, v):
    v = strip(st, v)
    return v[1] if v[0] == 's' else v


def waker_clone(en, st, fr, a):
    return [(st, strip(st, a[0]))]


def waker_clone_from(en, st, fr, a):
    o, p = st.deref(a[0])
    st.put(o, p, strip(st, a[1]))
    return [(st, UNIT)]


def waker_will_wake(en, st, fr, a):
    return [(st, boolv(waker_label(st, a[0]) == waker_label(st, a[1])))]


def waker_wake(en, st, fr, a):
    l = waker_label(st, a[0])
    if l == ('waker', st.g.get('cur', 'cur')):
        st.g['reg'] = st.g.get('reg', frozenset()) | {('selfwake',)}
    en.emit(st, 'wake', l)
    return [(st, UNIT)]


def aw_new(en, st, fr, a):
    return [(st, lib('AW', NONE))]


def aw_register(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    w = strip(st, a[1])
    st.put(o, p + (0,), some(w))
    a_ = st.g.get('aww')
    if a_ and ('r', o, p) in a_:
        st.g['aww'] = a_ - {('r', o, p)}
    if w == ('s', ('waker', st.g.get('cur', 'cur'))):
        st.g['reg'] = st.g.get('reg', frozenset()) | {('aw', ('r', o, p))}
    en.emit(st, 'aw.register', ('r', o, p), lv(w))
    return [(st, UNIT)]


def aw_wake(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    w = v[3][0]
    st.put(o, p + (0,), NONE)
    if w != NONE:
        st.g['aww'] = st.g.get('aww', frozenset()) | {('r', o, p)}
    en.emit(st, 'aw.wake', ('r', o, p), w)
    return [(st, UNIT)]


def aw_take(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    w = v[3][0]
    st.put(o, p + (0,), NONE)
    return [(st, w)]


# ---- time


def now(en, st, fr, a):
    n = st.n
    st.n += 1
    en.emit(st, 'now', ('now', ('@', n)))
    return [(st, ('s', ('now', ('@', n))))]


def t_add(en, st, fr, a):
    x, y = lv(strip(st, a[0])), lv(strip(st, a[1]))
    if y[0] == 'sub' and y[2] == x and x[0] == 'now' and en.truth(st, en.binop(st, 'Ge', ('s', y[1]), ('s', x), ('int', 'u64', False))) == 1:
        return [(st, ('s', y[1]))]     # t + (later - t)
    return [(st, lim(('add', lv(strip(st, a[0])), lv(strip(st, a[1])))))]


def t_sub(en, st, fr, a):
    return [(st, lim(('sub', lv(strip(st, a[0])), lv(strip(st, a[1])))))]


def t_add_assign(en, st, fr, a):
    o, p = st.deref(a[0])
    st.put(o, p, lim(('add', lv(st.get(o, p)), lv(a[1]))))
    return [(st, UNIT)]


def t_sub_assign(en, st, fr, a):
    o, p = st.deref(a[0])
    st.put(o, p, lim(('sub', lv(st.get(o, p)), lv(a[1]))))
    return [(st, UNIT)]


def t_checked_add(en, st, fr, a):
    return [(st, some(lim(('add', lv(strip(st, a[0])), lv(strip(st, a[1]))))))]


def t_since(en, st, fr, a):
    """saturating_duration_since / duration_since / elapsed"""
    x = lv(strip(st, a[0]))
    if fr.n == 'elapsed':
        (st, nv), = now(en, st, fr, a)
        return [(st, lim(('sub', nv[1], x)))]
    y = lv(strip(st, a[1]))
    return [(st, lim(('sub', x, y)))]


def t_checked_since(en, st, fr, a):
    x, y = strip(st, a[0]), strip(st, a[1])
    b = en.binop(st, 'Ge', ('s', lv(x)), ('s', lv(y)), ('int', 'u64', False))
    return [(s, some(lim(('sub', lv(x), lv(y)))) if t else NONE) for s, t in branch(en, st, b)]


def arith_trait(en, st, fr, args, v, o, p):
    n = fr.n
    f = {'add': t_add, 'sub': t_sub, 'add_assign': t_add_assign, 'sub_assign': t_sub_assign}.get(n)
    a = [strip(st, x) for x in args]
    if a[0][0] in ('i', 'f') and a[1][0] in ('i', 'f') and n in ('add', 'sub', 'mul', 'div', 'rem'):
        return [(st, en.binop(st, n.capitalize(), a[0], a[1], ('int', 'u64', False)))]
    if f:
        return f(en, st, fr, args)
    return [(st, lim((n, lv(a[0]), lv(a[1]) if len(a) > 1 else None)))]


def sleep(en, st, fr, a):
    (st, nv), = now(en, st, fr, a)
    d = lim(('add', nv[1], lv(a[0])))
    s = lib('Sleep', d, I(0), ('s', ('sleep', st.fresh())))
    en.emit(st, 'sleep.new', d)
    return [(st, s)]


def sleep_until(en, st, fr, a):
    s = lib('Sleep', a[0], I(0), ('s', ('sleep', st.fresh())))
    en.emit(st, 'sleep.new', a[0])
    return [(st, s)]


def sleep_reset(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    st.put(o, p, ('a', v[1], 0, (a[1], I(0), v[3][2])))
    en.emit(st, 'sleep.reset', a[1])
    return [(st, UNIT)]


def sleep_poll(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    cx = a[1]
    src = ('sleep', v[3][2][1])
    if v[3][1] == I(1):
        en.emit(st, 'sleep.poll', v[3][0], 'R')
        progress(en, st, src)
        return [(st, ready(UNIT))]
    s2 = st.copy()
    s2.put(o, p + (1,), I(1))
    progress(en, s2, src)
    en.emit(s2, 'sleep.poll', v[3][0], 'R')
    register(en, st, src, cx)
    en.emit(st, 'sleep.poll', v[3][0], 'P')
    return [(s2, ready(UNIT)), (st, PENDING)]


def sleep_elapsed(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    if v[3][1] == I(1):
        return [(st, TRUE)]
    s2 = st.copy()
    s2.put(o, p + (1,), I(1))
    en.emit(s2, 'sleep.poll', v[3][0], 'R')
    return [(s2, TRUE), (st, FALSE)]


def sleep_deadline(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    return [(st, v[3][0])]


# ---- semaphores


def sem_new(en, st, fr, a):
    return [(st, lib('Sem', a[0], ('s', ('sem', st.fresh()))))]


def psem_new(en, st, fr, a):
    return [(st, lib('PollSem', a[0], I(0)))]


def sem_id(st, rc):
    return st.get(rc[1], (0,))[3][1][1]


def psem_poll(en, st, fr, a):
    """Pending / a permit.  (The closed outcome needs a user who closes the semaphore: excluded.)"""
    o, p, v = en.libref(st, a[0])
    rc = v[3][0]
    sid = semid(en, st, rc)
    src = ('psem', ('r', o, p))
    s2 = st.copy()
    s2.put(o, p + (1,), I(0))
    pm = ('permit', sid, s2.fresh())
    s2.ts[pm] = 'held'
    progress(en, s2, src)
    en.emit(s2, 'permit.acquire', pm)
    st.put(o, p + (1,), I(1))
    register(en, st, src, a[1])
    en.emit(st, 'permit.pending', sid)
    return [(s2, ready(some(lib('Permit', ('s', pm))))), (st, PENDING)]


def semid(en, st, rc):
    v = rc
    while v[0] in ('r', 'b'):
        v = st.get(*st.deref(v))
    if v[0] == 'rc':
        x = st.get(v[1], (0,))
    else:
        x = v
    if x[0] == 'a' and x[1] == 'lib:Sem':
        return x[3][1][1]
    return lv(x)


def psem_clone(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    out = []
    for s, rc in clone_value(en, st, v[3][0]):
        out.append((s, lib('PollSem', rc, I(0))))
    return out


def sem_try_acquire(en, st, fr, a):
    sid = semid(en, st, a[0])
    s2 = st.copy()
    pm = ('permit', sid, s2.fresh())
    s2.ts[pm] = 'held'
    en.emit(s2, 'permit.acquire', pm)
    return [(s2, ok(lib('Permit', ('s', pm)))), (st, err(('s', ('nopermits',))))]


def sem_add(en, st, fr, a):
    n = strip(st, a[1]) if len(a) > 1 else TOP
    en.emit(st, 'sem.add_permits', semid(en, st, a[0]), n[1] if n[0] == 'i' else lv(n))
    return [(st, UNIT)]


def sem_avail(en, st, fr, a):
    return [(st, ('s', ('avail', semid(en, st, a[0]), st.fresh())))]


def psem_avail(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    return [(st, ('s', ('avail', semid(en, st, v[3][0]), st.fresh())))]


def psem_inner(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    return clone_value(en, st, v[3][0])


def permit_drop(en, st, obj, path, v):
    pm = v[3][0][1]
    if st.ts.get(pm) == 'held':
        st.ts[pm] = 'released'
    en.emit(st, 'permit.release', pm)
    return [st]


def permit_forget(en, st, fr, a):
    v = strip(st, a[0])
    en.emit(st, 'permit.forget', v[3][0][1])
    return [(st, UNIT)]


# ---- oneshot: heap object lib:Oneshot(state 0 empty/1 sent/2 taken, value, tx alive, rx alive)


def os_channel(en, st, fr, a):
    o = st.new(lib('Oneshot', I(0), UNIT, I(1), I(1)))
    en.emit(st, 'oneshot.new', ('r', o, ()))
    return [(st, ('t', (lib('OsTx', ('r', o, ())), lib('OsRx', ('r', o, ())))))]


def chan_of(en, st, a):
    o, p, v = en.libref(st, a)
    r = v[3][0]
    return r[1]


def os_send(en, st, fr, a):
    c = a[0][3][0][1]
    w = st.heap[c]
    en.emit(st, 'oneshot.send', ('r', c, ()), a[1])
    if w[3][3] == I(0):
        st.put(c, (2,), I(0))
        return [(st, err(a[1]))]
    st.heap[c] = ('a', w[1], 0, (I(1), a[1], I(0), w[3][3]))
    return [(st, ok(UNIT))]


def os_is_closed(en, st, fr, a):
    c = chan_of(en, st, a[0])
    alive = st.heap[c][3][3]
    return [(st, boolv(alive == I(0)))]


def os_tx_drop(en, st, obj, path, v):
    c = v[3][0][1]
    if c in st.heap:
        st.put(c, (2,), I(0))
        en.emit(st, 'oneshot.tx_drop', ('r', c, ()))
    return [st]


def os_rx_drop(en, st, obj, path, v):
    c = v[3][0][1]
    if c not in st.heap:
        return [st]
    w = st.heap[c]
    st.put(c, (3,), I(0))
    en.emit(st, 'oneshot.rx_drop', ('r', c, ()))
    if w[3][0] == I(1):
        st.heap[c] = ('a', w[1], 0, (I(2), UNIT, w[3][2], I(0)))
        return en.drop_value(st, w[3][1])
    return [st]


def os_close(en, st, fr, a):
    c = chan_of(en, st, a[0])
    st.put(c, (3,), I(0))
    return [(st, UNIT)]


def os_poll(en, st, fr, a):
    c = chan_of(en, st, a[0])
    w = st.heap[c]
    src = ('oneshot', ('r', c, ()))
    if w[3][0] == I(1):
        st.heap[c] = ('a', w[1], 0, (I(2), UNIT, w[3][2], w[3][3]))
        progress(en, st, src)
        return [(st, ready(ok(w[3][1])))]
    if w[3][0] == I(2):
        en.violate(st, 'repoll', 'future-polled-after-completion', 'oneshot::Receiver')
        return []
    if w[3][2] == I(0):
        progress(en, st, src)
        return [(st, ready(err(('s', ('RecvError',)))))]
    register(en, st, src, a[1])
    return [(st, PENDING)]


def os_try_recv(en, st, fr, a):
    c = chan_of(en, st, a[0])
    w = st.heap[c]
    if w[3][0] == I(1):
        st.heap[c] = ('a', w[1], 0, (I(2), UNIT, w[3][2], w[3][3]))
        return [(st, ok(w[3][1]))]
    return [(st, err(('s', ('TryRecvError', st.fresh()))))]


# ---- mpsc: heap object lib:Chan(queue, senders, closed, reserved, bounded)


def mpsc_channel(en, st, fr, a):
    o = st.new(lib('Chan', ('t', ()), I(1), I(0), I(0), I(1), strip(st, a[0]) if a else TOP))
    en.emit(st, 'mpsc.new', ('r', o, ()), a[0] if a else None)
    return [(st, ('t', (lib('MpTx', ('r', o, ())), lib('MpRx', ('r', o, ())))))]


def mpsc_unbounded(en, st, fr, a):
    o = st.new(lib('Chan', ('t', ()), I(1), I(0), I(0), I(0), ('str', 'unbounded')))
    return [(st, ('t', (lib('MpTx', ('r', o, ())), lib('MpRx', ('r', o, ())))))]


def chadd(st, c, i, d):
    st.put(c, (i,), I(st.get(c, (i,))[1] + d))


def mp_tx_clone(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    chadd(st, v[3][0][1], 1, 1)
    return [(st, v)]


def mp_tx_drop(en, st, obj, path, v):
    c = v[3][0][1]
    if c in st.heap:
        chadd(st, c, 1, -1)
    return [st]


def mp_send(en, st, fr, a):
    """UnboundedSender::send / Sender::try_send"""
    c = chan_of(en, st, a[0])
    w = st.heap[c]
    if w[3][2] != I(0):
        return [(st, err(('a', 'lib:SendError', 0, (a[1],))))]
    s2 = None
    if w[3][4] == I(1):
        s2 = st.copy()
    st.put(c, (0,), ('t', w[3][0][1] + (a[1],)))
    en.emit(st, 'mpsc.send', ('r', c, ()), a[1])
    out = [(st, ok(UNIT))]
    if s2 is not None:
        out.append((s2, err(('a', 'lib:SendError', 0, (a[1],)))))
    return out


def ps_new(en, st, fr, a):
    return [(st, lib('PollTx', a[0][3][0], I(0)))]


def ps_reserve(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    c = v[3][0][1]
    w = st.heap[c]
    src = ('chan', ('r', c, ()))
    stt = v[3][1][1]
    if stt == 1:
        en.emit(st, 'reserve', ('r', o, p), 'R')
        return [(st, ready(ok(UNIT)))]
    if stt == 2 or w[3][2] == I(1):
        progress(en, st, src)
        en.emit(st, 'reserve', ('r', o, p), 'closed')
        return [(st, ready(err(('s', ('PollSendError',)))))]
    out = []
    full = len(w[3][0][1]) + w[3][3][1] >= en.chan_cap
    if not full:
        s2 = st.copy()
        s2.put(o, p + (1,), I(1))
        chadd(s2, c, 3, 1)
        progress(en, s2, src)
        en.emit(s2, 'reserve', ('r', o, p), 'R')
        out.append((s2, ready(ok(UNIT))))
    register(en, st, src, a[1])
    en.emit(st, 'reserve', ('r', o, p), 'P')
    out.append((st, PENDING))
    return out


def ps_send_item(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    c = v[3][0][1]
    w = st.heap[c]
    stt = v[3][1][1]
    if stt == 0:
        en.panic(st, 'PollSender::send_item called without a reservation')
        return []
    if stt == 2:
        return [(st, err(('a', 'lib:SendError', 0, (some(a[1]),))))]
    st.put(o, p + (1,), I(0))
    chadd(st, c, 3, -1)
    w = st.heap[c]
    if w[3][2] == I(2):
        # receiver gone
        return [(st, err(('a', 'lib:SendError', 0, (some(a[1]),))))]
    st.put(c, (0,), ('t', w[3][0][1] + (a[1],)))
    en.emit(st, 'mpsc.send', ('r', c, ()), a[1])
    return [(st, ok(UNIT))]


def ps_is_closed(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    w = st.heap[v[3][0][1]]
    if w[3][2] != I(0):
        # closing the channel wakes every waiting reservation
        progress(en, st, ('chan', ('r', v[3][0][1], ())))
    return [(st, boolv(w[3][2] != I(0) or v[3][1] == I(2)))]


def ps_abort_send(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    if v[3][1] == I(1):
        st.put(o, p + (1,), I(0))
        chadd(st, v[3][0][1], 3, -1)
        return [(st, TRUE)]
    return [(st, FALSE)]


def ps_close(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    if v[3][1] == I(1):
        chadd(st, v[3][0][1], 3, -1)
    st.put(o, p + (1,), I(2))
    chadd(st, v[3][0][1], 1, -1)
    return [(st, UNIT)]


def ps_clone(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    chadd(st, v[3][0][1], 1, 1)
    return [(st, lib('PollTx', v[3][0], I(0)))]


def ps_drop(en, st, obj, path, v):
    c = v[3][0][1]
    if c in st.heap:
        if v[3][1] == I(1):
            chadd(st, c, 3, -1)
        if v[3][1] != I(2):
            chadd(st, c, 1, -1)
    return [st]


def mp_recv(en, st, fr, a):
    c = chan_of(en, st, a[0])
    w = st.heap[c]
    src = ('chanrx', ('r', c, ()))
    qv = w[3][0][1]
    if qv:
        st.put(c, (0,), ('t', qv[1:]))
        progress(en, st, src)
        en.emit(st, 'mpsc.recv', ('r', c, ()), qv[0])
        return [(st, ready(some(qv[0])))]
    if w[3][1][1] <= 0 or (w[3][2] != I(0) and w[3][3][1] <= 0):
        progress(en, st, src)
        en.emit(st, 'mpsc.recv', ('r', c, ()), None)
        return [(st, ready(NONE))]
    register(en, st, src, a[1])
    return [(st, PENDING)]


def mp_try_recv(en, st, fr, a):
    c = chan_of(en, st, a[0])
    w = st.heap[c]
    qv = w[3][0][1]
    if qv:
        st.put(c, (0,), ('t', qv[1:]))
        en.emit(st, 'mpsc.recv', ('r', c, ()), qv[0])
        return [(st, ok(qv[0]))]
    return [(st, err(('s', ('TryRecvError', st.fresh()))))]


def mp_close(en, st, fr, a):
    c = chan_of(en, st, a[0])
    if st.get(c, (2,)) == I(0):
        st.put(c, (2,), I(1))
    en.emit(st, 'mpsc.close', ('r', c, ()))
    return [(st, UNIT)]


def mp_rx_drop(en, st, obj, path, v):
    c = v[3][0][1]
    if c not in st.heap:
        return [st]
    qv = st.get(c, (0,))[1]
    st.put(c, (2,), I(2))
    st.put(c, (0,), ('t', ()))
    en.emit(st, 'mpsc.rx_drop', ('r', c, ()))
    states = [st]
    for x in qv:
        nx = []
        for s in states:
            nx += en.drop_value(s, x)
        states = nx
    return states


# ---- tasks: heap object lib:Task(future, status 0 running/1 done/2 aborted/3 joined, output)


def spawn(en, st, fr, a):
    o = st.new(lib('Task', a[0], I(0), UNIT))
    st.g['tasks'] = st.g.get('tasks', ()) + (('r', o, ()),)
    en.emit(st, 'spawn', ('r', o, ()))
    return [(st, lib('Join', ('r', o, ())))]


def join_poll(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    t = v[3][0][1]
    w = st.heap[t]
    src = ('task', ('r', t, ()))
    s = w[3][1][1]
    if s == 1:
        st.heap[t] = ('a', w[1], 0, (UNDEF, I(3), UNDEF))
        progress(en, st, src)
        return [(st, ready(ok(w[3][2])))]
    if s == 3:
        en.violate(st, 'repoll', 'future-polled-after-completion', 'JoinHandle')
        return []
    if s == 2:
        progress(en, st, src)
        st.put(t, (1,), I(3))
        return [(st, ready(err(('s', ('JoinError',)))))]
    register(en, st, src, a[1])
    return [(st, PENDING)]


def join_abort(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    t = v[3][0][1]
    en.emit(st, 'abort', ('r', t, ()))
    if t in st.heap and st.get(t, (1,)) == I(0):
        st.put(t, (1,), I(2))
        outs = en.drop_at(st, t, (0,))
        for s in outs:
            s.put(t, (0,), UNDEF)
        return [(s, UNIT) for s in outs]
    return [(st, UNIT)]


def join_finished(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    t = v[3][0][1]
    return [(st, boolv(st.get(t, (1,)) != I(0)))]


def join_drop(en, st, obj, path, v):
    t = v[3][0][1]
    if t in st.heap:
        if st.get(t, (1,)) == I(0):
            en.emit(st, 'detach', ('r', t, ()))
        elif st.get(t, (1,)) == I(1):
            outs = en.drop_at(st, t, (2,))
            return outs
    return [st]


# ---- futures_util combinators on futures


def fmap(kind):
    def h(en, st, fr, a):
        return [(st, lib('FutMap', ('str', kind), a[0], a[1] if len(a) > 1 else UNIT, UNIT))]
    return h


def into_result(en, st, v):
    """split a (possibly opaque) Result into variants: [(state, is_ok, payload)]"""
    if v[0] == 'a' and v[1] == RES:
        return [(st, v[2] == 0, v[3][0])]
    if v[0] == 's':
        f = st.facts.get(('var', v[1]))
        out = []
        for i in (0, 1):
            if f is not None and f != i:
                continue
            s = st.copy()
            s.facts[('var', v[1])] = i
            out.append((s, i == 0, ('s', ('pj', v[1], i, 0))))
        return out
    en.taint(st, 'result?')
    s = st.copy()
    return [(st, True, TOP), (s, False, TOP)]


def fm_poll(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    kind = v[3][0][1]
    if v[3][3] == TRUE:
        en.violate(st, 'repoll', 'future-polled-after-completion', kind)
        return []
    out = []
    for s, r in en.call_trait(st, None, 'core::future::future::Future', 'poll', [pin(('r', o, p + (1,))), a[1]]):
        if r[0] == 'a' and r[2] == 1:
            out.append((s, r))
            continue
        if r[0] != 'a':
            out += en.havoc(s, 'poll of ' + kind, a)
            continue
        val = r[3][0]
        f = s.get(o, p + (2,))
        # the inner future is dropped before the callback runs
        for s2 in en.drop_at(s, o, p + (1,)):
            s2.put(o, p + (1,), UNDEF)
            if kind in ('map', 'then_fn'):
                for s3, w in en.call_value(s2, f, [val]):
                    s3.put(o, p + (3,), TRUE)
                    s3.put(o, p + (2,), UNDEF)
                    out.append((s3, ready(w)))
            elif kind in ('map_ok', 'map_err', 'err_into', 'ok_into'):
                for s3, isok, pay in into_result(en, s2, val):
                    if (kind in ('map_ok', 'ok_into')) == isok:
                        if kind in ('err_into', 'ok_into'):
                            s3.put(o, p + (3,), TRUE)
                            out.append((s3, ready(ok(pay) if isok else err(pay))))
                            continue
                        for s4, w in en.call_value(s3, f, [pay]):
                            s4.put(o, p + (3,), TRUE)
                            s4.put(o, p + (2,), UNDEF)
                            out.append((s4, ready(ok(w) if isok else err(w))))
                    else:
                        for s4 in en.drop_value(s3, f):
                            s4.put(o, p + (3,), TRUE)
                            s4.put(o, p + (2,), UNDEF)
                            out.append((s4, ready(ok(pay) if isok else err(pay))))
            elif kind in ('and_then', 'or_else', 'then'):
                branches = [(s2, None, val)] if kind == 'then' else into_result(en, s2, val)
                for s3, isok, pay in branches:
                    if kind == 'then' or (kind == 'and_then') == isok:
                        for s4, w in en.call_value(s3, f, [pay]):
                            s4.put(o, p, lib('FutMap', ('str', 'flat'), w, UNDEF, UNIT))
                            out += fm_poll(en, s4, fr, [a[0], a[1]])
                    else:
                        s3.put(o, p + (3,), TRUE)
                        out.append((s3, ready(ok(pay) if isok else err(pay))))
            else:
                s2.put(o, p + (3,), TRUE)
                out.append((s2, ready(val)))
    return out


def f_ready(en, st, fr, a):
    n = fr.n
    v = a[0]
    if n == 'ok':
        v = ok(v)
    elif n == 'err':
        v = err(v)
    return [(st, lib('FutReady', some(v)))]


def f_ready_poll(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    if v[3][0] == NONE:
        en.violate(st, 'repoll', 'future-polled-after-completion', 'Ready')
        return []
    st.put(o, p + (0,), NONE)
    return [(st, ready(v[3][0][3][0]))]


def f_pending(en, st, fr, a):
    return [(st, lib('FutPending'))]


def f_pending_poll(en, st, fr, a):
    register(en, st, ('never',), a[1])
    return [(st, PENDING)]


# ---- FuturesUnordered / FuturesOrdered: lib:FU(futures...), lib:FO(t(pending..))


def fu_new(en, st, fr, a):
    return [(st, lib('FU'))]


def fo_push_front(en, st, fr, a):
    return fu_push(en, st, fr, a, True)


def fu_push(en, st, fr, a, front=False):
    o, p, v = en.libref(st, a[0])
    if len(v[3]) >= en.fu_cap:
        # outside the analysed configuration (number of simultaneously queued futures)
        en.stats["pruned"] = en.stats.get("pruned", 0) + 1
        return []
    m = a[1]
    if v[1] == 'lib:FU':
        m = lib('FM', a[1], ('s', ('regs', None)))      # the sources it registered with when last polled
    st.put(o, p, ('a', v[1], 0, (m,) + v[3] if front else v[3] + (m,)))
    return [(st, UNIT)]


def fm_quiet(en, st, ref, regs, cx):
    """a queued future is polled only when woken: with its sources silent it must not be able to progress"""
    aww = st.g.get('aww', frozenset())
    if st.get(ref[1], ref[2])[0] == 's' or any(x[0] == 'aw' and x[1] in aww for x in regs) or ('selfwake',) in regs or st.g.get('quiet'):
        return
    s = st.copy()
    en.mute += 1
    try:
        s.g['mute'] = 1
        s.g['quiet'] = regs
        s.g.pop('woke', None)
        outs = en.call_trait(s, None, 'core::future::future::Future', 'poll', [pin(ref), cx])
    finally:
        en.mute -= 1
    for s2, r in outs:
        if r[0] == 'a' and r[2] != 1 and not s2.g.get('woke'):
            en.violate(st, 'wake', 'lost-wakeup', 'a queued future can make progress but was not woken: it registered with %s' % sorted(str(x[0]) for x in regs), 'FuturesUnordered')
            return


def fu_len(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    return [(st, I(len(v[3])))]


def fu_empty(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    return [(st, boolv(not v[3]))]


def fu_poll(en, st, fr, a):
    """poll every member (in some order): the first that completes is returned"""
    o, p, v = en.libref(st, a[0])
    n = len(v[3])
    if n == 0:
        return [(st, ready(NONE))]
    out = []
    base = v[1]
    for m in range(n):
        rg = v[3][m][3][1][1][1]
        if rg is not None:
            fm_quiet(en, st, ('r', o, p + (m, 0)), rg, a[1])
    # member i completes having polled the members before it (rotated start) without success
    for start in range(n):
        order = [(start + k) % n for k in range(n)]
        states = [st.copy()]
        for m in order:
            nxt = []
            for s in states:
                was = s.g.get('reg', frozenset())
                s.g['reg'] = frozenset()
                for s2, r in en.call_trait(s, None, 'core::future::future::Future', 'poll', [pin(('r', o, p + (m, 0))), a[1]]):
                    mine = s2.g.get('reg', frozenset())
                    s2.g['reg'] = was | mine
                    if r[0] == 'a' and r[2] == 1:
                        s2.put(o, p + (m, 1), ('s', ('regs', mine)))
                        nxt.append(s2)
                    elif r[0] == 'a':
                        for s3 in en.drop_at(s2, o, p + (m,)):
                            cur = s3.get(o, p)
                            s3.put(o, p, ('a', base, 0, cur[3][:m] + cur[3][m + 1:]))
                            out.append((s3, ready(some(r[3][0]))))
                    else:
                        out += en.havoc(s2, 'FuturesUnordered member', a)
            states = nxt
            if n > 1 and en.fu_first_only:
                pass
        if start == 0:
            for s in states:
                out.append((s, PENDING))
    return out


def fo_new(en, st, fr, a):
    return [(st, lib('FO'))]


def fo_poll(en, st, fr, a):
    """in-order: entries are futures or lib:Done(value)"""
    o, p, v = en.libref(st, a[0])
    n = len(v[3])
    if n == 0:
        return [(st, ready(NONE))]
    states = [st]
    for m in range(n):
        nxt = []
        for s in states:
            f = s.get(o, p + (m,))
            if f[0] == 'a' and f[1] == 'lib:Done':
                nxt.append(s)
                continue
            for s2, r in en.call_trait(s, None, 'core::future::future::Future', 'poll', [pin(('r', o, p + (m,))), a[1]]):
                if r[0] == 'a' and r[2] == 1:
                    nxt.append(s2)
                elif r[0] == 'a':
                    for s3 in en.drop_at(s2, o, p + (m,)):
                        s3.put(o, p + (m,), lib('Done', r[3][0]))
                        nxt.append(s3)
                else:
                    nxt += [x for x, _ in en.havoc(s2, 'FuturesOrdered member', a)]
        states = nxt
    out = []
    for s in states:
        cur = s.get(o, p)
        f = cur[3][0]
        if f[0] == 'a' and f[1] == 'lib:Done':
            s.put(o, p, ('a', cur[1], 0, cur[3][1:]))
            out.append((s, ready(some(f[3][0]))))
        else:
            out.append((s, PENDING))
    return out


# ---- misc


def hist_new(en, st, fr, a):
    return [(st, ok(lib('Hist', ('s', ('hist', st.fresh())))))]


def hist_record(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    en.emit(st, 'hist.record', v[3][0][1], a[1])
    return [(st, ok(UNIT) if fr.n == 'record' else UNIT)]


def hist_len(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    r = ('u', 'histlen', v[3][0][1])
    en.emit(st, 'hist.len', r)
    return [(st, ('s', r))]


def hist_q(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    return [(st, ('s', ('u', 'quantile', v[3][0][1], lv(a[1]))))]


def hist_clear(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    en.emit(st, 'hist.clear', v[3][0][1])
    return [(st, UNIT)]


def dyn_any(en, st, fr, a):
    return [(st, ('str', '?'))]


def opt_rng(en, st, fr, args, v, o, p):
    return None


def f_is_finite(en, st, fr, a):
    if a[0][0] == 'f':
        import math
        return [(st, boolv(math.isfinite(a[0][1])))]
    return pure(en, st, fr, a)


def poll_fn_new(en, st, fr, a):
    return [(st, lib('PollFn', a[0]))]


def poll_fn_poll(en, st, fr, a):
    o, p, v = en.libref(st, a[0])
    return en.call_value(st, ('r', o, p + (0,)), [a[1]])


def arr_from_fn(en, st, fr, a):
    return en.havoc(st, 'array::from_fn', a)


def discriminant_value(en, st, fr, a):
    return en.havoc(st, 'discriminant_value', a)


def install(en):
    N = en.natives
    M = en.methods
    B = en.boundary
    D = en.dropn
    en.fresh_clone = {'svc', 'mksvc', 'disc'}
    en.fn_fresh = set()
    en.trusted_index = set()
    en.chan_cap = 2
    en.policy_pick = None
    en.fu_cap = 3
    en.fu_first_only = False
    en.svc_ready = lambda st, L: ('P', 'R', 'F')
    en.needs_ready = lambda st, L: True
    en.fut_outcomes = lambda st, F: ('P', 'R')
    en.fut_output = lambda st, F: ('s', ('out', F))
    en.stream_items = lambda st, L: ('P', None, lambda s: ('s', ('item', L, s.fresh())))
    en.atomic_read = lambda st, ref, v: v

    # boundary
    B[('Policy', 'clone_request')] = policy_clone
    B[('Policy', 'retry')] = policy_retry
    B[('TrackCompletion', 'track_completion')] = track_completion
    B[('Service', 'poll_ready')] = svc_poll_ready
    B[('Error', 'source')] = error_source
    B[('Service', 'call')] = svc_call
    B[('Future', 'poll')] = fut_poll
    B[('TryFuture', 'try_poll')] = fut_poll
    B[('Stream', 'poll_next')] = stream_poll
    B[('TryStream', 'try_poll_next')] = stream_poll
    B[('Clone', 'clone')] = trait_clone
    B['fn'] = user_fn
    B['trait'] = generic_trait
    B[('Deref', 'deref')] = deref_trait
    B[('DerefMut', 'deref_mut')] = deref_trait
    for t, ns in (('PartialOrd', ('lt', 'le', 'gt', 'ge', 'partial_cmp')), ('PartialEq', ('eq', 'ne')), ('Ord', ('cmp', 'min', 'max', 'clamp'))):
        for n in ns:
            B[(t, n)] = cmp_trait
    for n in ('next', 'map', 'enumerate', 'filter', 'by_ref', 'copied', 'cloned', 'rev', 'chain', 'collect', 'fold', 'sum', 'count', 'for_each',
              'any', 'all', 'find', 'position', 'last', 'find_map', 'take', 'skip', 'len', 'size_hint', 'fuse',
              'filter_map', 'take_while', 'inspect', 'zip', 'flatten', 'flat_map', 'try_for_each', 'try_fold', 'nth', 'min_by_key', 'max_by_key', 'min', 'max'):
        B[('Iterator', n)] = iterator_trait
        B[('DoubleEndedIterator', n)] = iterator_trait
    for n in ('any', 'all', 'find', 'position', 'collect', 'map', 'enumerate', 'filter', 'fold', 'rev', 'for_each', 'count', 'sum', 'last', 'chain', 'take', 'skip', 'find_map', 'copied', 'cloned',
              'filter_map', 'take_while', 'inspect', 'zip', 'flatten', 'flat_map', 'try_for_each', 'try_fold', 'nth', 'min_by_key', 'max_by_key', 'min', 'max'):
        for k in ITERS:
            M[(k, n)] = lambda en, st, fr, a: iterator_trait(en, st, fr, a, a[0], None, None) or en.havoc(st, 'Iterator::' + fr.n, a)
    for k in ITERS:
        M[(k, 'next')] = it_next
        M[(k, 'into_iter')] = n_ident
    N['core::iter::range::<impl Iterator for Range>::next'] = it_next
    N['std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next'] = it_next
    B[('IntoIterator', 'into_iter')] = into_iter_trait
    N['<I as std::iter::IntoIterator>::into_iter'] = n_ident
    B[('FromIterator', 'from_iter')] = fromiter_trait
    for n in ('add', 'sub', 'mul', 'div', 'rem', 'add_assign', 'sub_assign', 'mul_assign', 'div_assign', 'neg'):
        for t in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'AddAssign', 'SubAssign', 'MulAssign', 'DivAssign', 'Neg'):
            if t.lower().replace('assign', '_assign') == n or t.lower() == n:
                B[(t, n)] = arith_trait

    # core
    for p in ('core', 'std'):
        N[p + '::mem::replace'] = n_replace
        N[p + '::mem::swap'] = n_swap
        N[p + '::mem::take'] = n_take
        N[p + '::mem::drop'] = n_drop
        N[p + '::mem::forget'] = n_forget
        N[p + '::ptr::read'] = n_read
        N[p + '::ptr::write'] = n_write
        N[p + '::any::type_name'] = dyn_any
        N[p + '::array::<impl [T; N]>::map'] = n_array_map
        for q in ('once', 'sources::once::once'):
            N[p + '::iter::' + q] = n_iter_once
        for q in ('empty', 'sources::empty::empty'):
            N[p + '::iter::' + q] = n_iter_empty
        for q in ('from_fn', 'sources::from_fn::from_fn'):
            N[p + '::iter::' + q] = n_iter_from_fn
        N[p + '::future::poll_fn'] = poll_fn_new
        N[p + '::future::ready'] = f_ready
        N[p + '::future::pending'] = f_pending
        N[p + '::convert::identity'] = n_ident
        N[p + '::default::Default::default'] = n_default_first
        N[p + '::intrinsics::discriminant_value'] = discriminant_value
        N[p + '::hint::spin_loop'] = n_unit
        for x in ('panic', 'panic_fmt', 'assert_failed', 'unreachable_display', 'panic_display', 'panic_explicit', 'panic_nounwind', 'panic_bounds_check',
                  'panic_str_2015', 'assert_failed_inner', 'panic_const'):
            N[p + '::panicking::' + x] = n_panic
            N[p + '::rt::' + x] = n_panic
        N[p + '::rt::begin_panic'] = n_panic
        N[p + '::panicking::begin_panic'] = n_panic
        N[p + '::panicking::unreachable_default_msg'] = n_panic
        N[p + '::option::expect_failed'] = n_panic
        N[p + '::option::unwrap_failed'] = n_panic
        N[p + '::result::unwrap_failed'] = n_panic
        N[p + '::thread::panicking'] = n_false
        N[p + '::pin::Pin::new'] = n_pin_new
        N[p + '::pin::Pin::new_unchecked'] = n_pin_new
        N[p + '::pin::Pin::get_mut'] = lambda en, st, fr, a: [(st, a[0][3][0] if a[0][0] == 'a' else a[0])]
        N[p + '::pin::Pin::get_unchecked_mut'] = N[p + '::pin::Pin::get_mut']
        N[p + '::pin::Pin::get_ref'] = N[p + '::pin::Pin::get_mut']
        N[p + '::pin::Pin::into_inner'] = N[p + '::pin::Pin::get_mut']
        N[p + '::pin::Pin::as_mut'] = pin_as_mut
        N[p + '::pin::Pin::as_ref'] = pin_as_mut
        N[p + '::pin::Pin::set'] = pin_set
        N[p + '::boxed::Box::new'] = n_box_new
        N[p + '::boxed::Box::pin'] = n_box_pin
        N[p + '::boxed::Box::into_pin'] = n_pin_new
        N[p + '::sync::Arc::new'] = n_arc_new
        N[p + '::sync::Arc::strong_count'] = arc_count
        N[p + '::sync::Arc::get_mut'] = arc_get_mut
        N[p + '::sync::Arc::try_unwrap'] = arc_try_unwrap
        N[p + '::sync::Arc::ptr_eq'] = lambda en, st, fr, a: [(st, boolv(strip(st, a[0]) == strip(st, a[1])))]
        N[p + '::vec::Vec::new'] = vec_new
        N[p + '::vec::Vec::with_capacity'] = vec_new
        N[p + '::collections::VecDeque::new'] = vec_new
        N[p + '::collections::VecDeque::with_capacity'] = vec_new
        N[p + '::sync::Mutex::new'] = mutex_new
        N[p + '::sync::RwLock::new'] = mutex_new
        for q in ('sync::OnceLock', 'cell::OnceCell', 'sync::once_lock::OnceLock', 'cell::once::OnceCell'):
            N[p + '::' + q + '::new'] = once_new
        for q in ('cell::Cell', 'cell::RefCell'):
            N[p + '::' + q + '::new'] = cell_new
        N[p + '::vec::from_elem'] = vec_from_elem
        N[p + '::task::Context::waker'] = cx_waker_n
        N[p + '::task::Context::from_waker'] = cx_from_waker
        N[p + '::task::Waker::wake'] = waker_wake
        N[p + '::task::Waker::wake_by_ref'] = waker_wake
        N['<%s::task::Waker as %s::clone::Clone>::clone' % (p, p)] = waker_clone
        N['<%s::task::Waker as %s::clone::Clone>::clone_from' % (p, p)] = waker_clone_from
        N[p + '::task::Waker::will_wake'] = waker_will_wake
        N[p + '::task::Waker::noop'] = lambda en, st, fr, a: [(st, ('r', st.new(('s', ('waker', 'noop'))), ()))]
        N[p + '::time::Instant::now'] = now
        N[p + '::sync::atomic::Atomic::new'] = atomic_new
        for t in ('bool', 'usize', 'isize', 'u64', 'i64', 'u32', 'i32'):
            N[p + '::sync::atomic::Atomic::<%s>::new' % t] = atomic_new
        N[p + '::sync::atomic::fence'] = n_unit
        N[p + '::intrinsics::integer_min'] = int_minmax
        N[p + '::intrinsics::integer_max'] = int_minmax
    N['<std::boxed::Box<T> as std::convert::From<E>>::from'] = n_ident
    M[('lib:Arc', 'deref')] = arc_deref
    M[('lib:Arc', 'as_ref')] = arc_deref
    M[('lib:Arc', 'clone')] = arc_clone
    M[('lib:Arc', 'borrow')] = arc_deref

    for k, f in (('push', vec_push), ('push_back', vec_push), ('push_front', vec_push_front), ('rotate_left', vec_rotate), ('rotate_right', vec_rotate), ('pop', vec_pop), ('pop_back', vec_pop), ('pop_front', vec_pop_front),
                 ('len', vec_len), ('is_empty', vec_is_empty), ('clear', vec_clear), ('index', vec_index), ('index_mut', vec_index), ('get', vec_get),
                 ('get_mut', vec_get), ('remove', vec_remove), ('swap_remove', vec_remove), ('insert', vec_insert), ('truncate', vec_truncate), ('contains', vec_contains),
                 ('iter', vec_iter), ('iter_mut', vec_iter), ('into_iter', vec_into_iter), ('drain', vec_drain), ('deref', vec_self), ('deref_mut', vec_self),
                 ('into_boxed_slice', vec_into_box), ('as_slice', vec_self), ('as_mut_slice', vec_self), ('extend', vec_extend), ('first', vec_first), ('last', vec_last),
                 ('front', vec_first), ('front_mut', vec_first), ('back', vec_last), ('first_mut', vec_first), ('last_mut', vec_last), ('as_ref', vec_self), ('as_mut', vec_self),
                 ('reserve', n_unit), ('shrink_to_fit', n_unit), ('resize', vec_resize), ('resize_with', vec_resize), ('retain', vec_retain), ('retain_mut', vec_retain),
                 ('append', vec_append), ('fill', vec_fill), ('swap', vec_swap), ('split_off', vec_split_off), ('back_mut', vec_last), ('make_contiguous', vec_self), ('borrow', vec_self), ('borrow_mut', vec_self)):
        M[('lib:Vec', k)] = f
    for k, f in (('get', once_get), ('set', once_set), ('get_or_init', once_init), ('take', once_take), ('into_inner', once_take)):
        M[('lib:Once', k)] = f
    for k, f in (('get', cell_get), ('set', cell_set), ('replace', cell_set), ('take', cell_take), ('get_mut', cell_ref), ('borrow', cell_ref), ('borrow_mut', cell_ref), ('into_inner', cell_into)):
        M[('lib:Cell', k)] = f
    for k, f in (('contains_key', im_contains), ('get_full', im_get), ('get_full_mut', im_get), ('get', im_get), ('get_mut', im_get), ('get_key_value', im_get),
                 ('get_index_of', im_get), ('get_index', im_get_index), ('get_index_mut', im_get_index), ('insert', im_insert), ('insert_full', im_insert),
                 ('is_empty', vec_is_empty), ('len', vec_len), ('iter', im_iter), ('iter_mut', im_iter), ('keys', im_iter), ('values', im_iter), ('values_mut', im_iter),
                 ('swap_remove', im_remove), ('swap_remove_full', im_remove), ('swap_remove_index', im_remove), ('shift_remove', im_remove),
                 ('shift_remove_full', im_remove), ('shift_remove_index', im_remove), ('swap_remove_entry', im_remove), ('remove', im_remove), ('clear', vec_clear),
                 ('into_iter', into_iter_m), ('into_values', im_into), ('into_keys', im_into), ('entry', im_entry), ('drain', im_drain), ('retain', im_retain), ('remove_entry', im_remove), ('pop', vec_pop), ('pop_last', vec_pop), ('pop_first', vec_pop_front)):
        M[('lib:IMap', k)] = f
    for k in ('std::collections::hash::map::HashMap', 'std::collections::HashMap', 'std::collections::hash_map::HashMap', 'std::collections::BTreeMap', 'alloc::collections::btree::map::BTreeMap'):
        N[k + '::new'] = N[k + '::with_capacity'] = lambda en, st, fr, a: [(st, lib('IMap'))]
    for k, f in (('or_insert', entry_or), ('or_insert_with', entry_or), ('or_insert_with_key', entry_or), ('or_default', entry_or), ('and_modify', entry_modify), ('key', entry_get)):
        M[(HENTRY, k)] = f
    for k, f in (('get', entry_get), ('get_mut', entry_get), ('into_mut', entry_get), ('insert', entry_insert), ('remove', entry_remove), ('remove_entry', entry_remove), ('key', entry_get)):
        M[('lib:MEntry', k)] = f
    N['tokio_test::task::spawn'] = tt_spawn
    M[('lib:TtSpawn', 'enter')] = tt_enter
    M[('lib:MpRx', 'recv')] = mp_recv_fut
    M[('lib:Recv', 'poll')] = mp_recv_poll
    N['indexmap::IndexMap::new'] = lambda en, st, fr, a: [(st, lib('IMap'))]
    N['indexmap::IndexMap::with_capacity'] = N['indexmap::IndexMap::new']
    N['<indexmap::IndexMap<K, V, S> as std::default::Default>::default'] = N['indexmap::IndexMap::new']
    for k, f in (('lock', mutex_lock), ('write', mutex_lock), ('read', mutex_lock), ('get_mut', mutex_get_mut)):
        M[('lib:Mutex', k)] = f
    M[('lib:Guard', 'deref')] = guard_deref
    M[('lib:Guard', 'deref_mut')] = guard_deref
    D['lib:Guard'] = guard_drop
    for k, f in (('load', atomic_load), ('store', atomic_store), ('swap', atomic_rmw), ('fetch_add', atomic_rmw), ('fetch_sub', atomic_rmw), ('fetch_or', atomic_rmw),
                 ('fetch_and', atomic_rmw), ('compare_exchange', atomic_cas), ('compare_exchange_weak', atomic_cas), ('fetch_update', atomic_update),
                 ('fetch_max', atomic_rmw), ('fetch_min', atomic_rmw)):
        M[('lib:Atomic', k)] = f
    M[('lib:Atomic', 'get_mut')] = lambda en, st, fr, a: (lambda r: [(st, ('r', r[0], r[1] + (0,)))])(en.libref(st, a[0]))
    N['futures_util::task::AtomicWaker::new'] = aw_new
    N['futures_core::task::__internal::AtomicWaker::new'] = aw_new
    M[('lib:AW', 'register')] = aw_register
    M[('lib:AW', 'wake')] = aw_wake
    M[('lib:AW', 'take')] = aw_take

    # tokio
    N['tokio::time::Instant::now'] = now
    N['tokio::time::sleep'] = sleep
    N['tokio::time::sleep_until'] = sleep_until
    M[('lib:Sleep', 'reset')] = sleep_reset
    M[('lib:Sleep', 'poll')] = sleep_poll
    M[('lib:Sleep', 'is_elapsed')] = sleep_elapsed
    M[('lib:Sleep', 'deadline')] = sleep_deadline
    for n in ('saturating_duration_since', 'duration_since', 'elapsed'):
        N['tokio::time::Instant::' + n] = t_since
        N['std::time::Instant::' + n] = t_since
    N['tokio::time::Instant::checked_duration_since'] = t_checked_since
    N['std::time::Instant::checked_duration_since'] = t_checked_since
    N['tokio::time::Instant::checked_add'] = t_checked_add
    N['std::time::Instant::checked_add'] = t_checked_add
    N['tokio::sync::Semaphore::new'] = sem_new
    N['tokio_util::sync::PollSemaphore::new'] = psem_new
    M[('lib:PollSem', 'poll_acquire')] = psem_poll
    M[('lib:PollSem', 'clone')] = psem_clone
    M[('lib:PollSem', 'clone_inner')] = lambda en, st, fr, a: clone_value(en, st, en.libref(st, a[0])[2][3][0])
    M[('lib:Arc', 'try_acquire_owned')] = sem_try_acquire
    N['tokio::sync::Semaphore::try_acquire_owned'] = sem_try_acquire
    M[('lib:Sem', 'add_permits')] = sem_add
    N['tokio::sync::Semaphore::add_permits'] = sem_add
    M[('lib:PollSem', 'add_permits')] = sem_add
    M[('lib:PollSem', 'available_permits')] = psem_avail
    M[('lib:Sem', 'available_permits')] = sem_avail
    M[('lib:PollSem', 'clone_inner')] = psem_inner
    D['lib:Permit'] = permit_drop
    M[('lib:Permit', 'forget')] = permit_forget
    N['tokio::sync::oneshot::channel'] = os_channel
    M[('lib:OsTx', 'send')] = os_send
    M[('lib:OsTx', 'is_closed')] = os_is_closed
    M[('lib:OsRx', 'poll')] = os_poll
    M[('lib:OsRx', 'close')] = os_close
    M[('lib:OsRx', 'try_recv')] = os_try_recv
    D['lib:OsTx'] = os_tx_drop
    D['lib:OsRx'] = os_rx_drop
    N['tokio::sync::mpsc::channel'] = mpsc_channel
    N['tokio::sync::mpsc::unbounded_channel'] = mpsc_unbounded
    N['tokio_util::sync::PollSender::new'] = ps_new
    for k, f in (('poll_reserve', ps_reserve), ('send_item', ps_send_item), ('is_closed', ps_is_closed), ('abort_send', ps_abort_send), ('close', ps_close), ('clone', ps_clone)):
        M[('lib:PollTx', k)] = f
    D['lib:PollTx'] = ps_drop
    M[('lib:MpTx', 'clone')] = mp_tx_clone
    M[('lib:MpTx', 'send')] = mp_send
    M[('lib:MpTx', 'try_send')] = mp_send
    D['lib:MpTx'] = mp_tx_drop
    M[('lib:MpRx', 'poll_recv')] = mp_recv
    M[('lib:MpRx', 'try_recv')] = mp_try_recv
    M[('lib:MpRx', 'close')] = mp_close
    D['lib:MpRx'] = mp_rx_drop
    N['tokio::spawn'] = spawn
    N['tokio::task::spawn'] = spawn
    M[('lib:Join', 'poll')] = join_poll
    M[('lib:Join', 'abort')] = join_abort
    M[('lib:Join', 'is_finished')] = join_finished
    D['lib:Join'] = join_drop

    # futures_util
    FX = 'futures_util::future::future::FutureExt::'
    TX = 'futures_util::future::try_future::TryFutureExt::'
    N[FX + 'map'] = fmap('map')
    N[FX + 'then'] = fmap('then')
    N[FX + 'boxed'] = n_box_pin
    for n in ('map_ok', 'map_err', 'err_into', 'ok_into', 'and_then', 'or_else'):
        N[TX + n] = fmap(n)
    M[('lib:FutMap', 'poll')] = fm_poll
    M[('lib:FutMap', 'try_poll')] = fm_poll
    for n in ('ready', 'ok', 'err'):
        N['futures_util::future::ready::' + n] = f_ready
        N['futures_util::future::' + n] = f_ready
    N['futures_util::future::pending::pending'] = f_pending
    N['futures_util::future::pending'] = f_pending
    M[('lib:FutReady', 'poll')] = f_ready_poll
    M[('lib:FutReady', 'into_inner')] = lambda en, st, fr, a: [(st, strip(st, a[0])[3][0][3][0])]
    M[('lib:FutPending', 'poll')] = f_pending_poll
    M[('lib:PollFn', 'poll')] = poll_fn_poll
    N['futures_util::future::poll_fn'] = poll_fn_new
    N['futures_util::future::poll_fn::poll_fn'] = poll_fn_new
    N['futures_util::stream::FuturesUnordered::new'] = fu_new
    N['<futures_util::stream::FuturesUnordered<Fut> as std::default::Default>::default'] = fu_new
    for k, f in (('push', fu_push), ('len', fu_len), ('is_empty', fu_empty), ('poll_next', fu_poll), ('poll_next_unpin', fu_poll), ('is_terminated', fu_empty)):
        M[('lib:FU', k)] = f
    N['futures_util::stream::FuturesOrdered::new'] = fo_new
    for k, f in (('push_back', fu_push), ('push_front', fo_push_front), ('push', fu_push), ('len', fu_len), ('is_empty', fu_empty), ('poll_next', fo_poll), ('poll_next_unpin', fo_poll)):
        M[('lib:FO', k)] = f
    N['tracing::Instrument::in_current_span'] = n_ident
    N['tracing::Instrument::instrument'] = n_ident
    N['tracing::__macro_support::__is_enabled'] = n_false
    N['tracing::dispatcher::has_been_set'] = n_true

    # histogram
    N['hdrhistogram::Histogram::new'] = hist_new
    N['hdrhistogram::Histogram::new_with_bounds'] = hist_new
    for k, f in (('record', hist_record), ('saturating_record', hist_record), ('len', hist_len), ('value_at_quantile', hist_q), ('clear', hist_clear), ('reset', hist_clear)):
        M[('lib:Hist', k)] = f

    orig = en.unknown_call

    def unknown(st, fr, args):
        if fr is None:
            return en.havoc(st, '?', args)
        p = fr.rnp or fr.np
        k = fr.res or fr.k
        c = k.split('::', 1)[0]
        if c in ('tracing', 'tracing_core', 'log') or 'tracing' in p:
            return [(st, ('s', ('trc', fr.n)))]
        if '::fmt::' in k or 'core::fmt' in k:
            if fr.n in ('finish', 'fmt', 'write_str', 'write_fmt', 'pad') or fr.n.endswith('_finish'):
                return [(st, ok(UNIT))]
            return [(st, ('s', ('fmt',)))]
        if k.startswith('core::num::') or 'core::num::<impl' in p or '::num::<impl' in p:
            return num_method(en, st, fr, args)
        if 'is_finite' in p:
            return f_is_finite(en, st, fr, args)
        if k.startswith(('core::time::', 'core::f64', 'std::f64', 'std::num::f64', 'core::hash', 'std::hash', 'tokio::time::instant')) or '<impl f64>' in p or 'Hasher' in k:
            if fr.trait and fr.trait.rsplit('::', 1)[-1] in ('PartialOrd', 'PartialEq', 'Ord'):
                return cmp_trait(en, st, fr, args, None, None, None)
            if fr.n in ('add', 'sub', 'add_assign', 'sub_assign', 'mul', 'div'):
                r = arith_trait(en, st, fr, args, None, None, None)
                if r:
                    return r
            if fr.n == 'clone':
                return [(st, strip(st, args[0]))]
            if fr.n in ('hash', 'hash_slice'):
                en.emit(st, 'trait.call', 'Hash', fr.n, strip(st, args[0]), tuple(args[1:]))
            return pure(en, st, fr, args)
        if fr.trait and fr.trait.startswith('core::cmp::'):
            r = cmp_trait(en, st, fr, args, None, None, None)
            if r is not None:
                return r
        if fr.trait and fr.trait.startswith('core::clone'):
            return clone_value(en, st, strip1(st, args[0]))
        if fr.n == 'default' and not args:
            return n_default(en, st, fr, args)
        if fr.trait == 'core::ops::drop::Drop':
            return [(st, UNIT)]
        if 'PinDerefMutHelper' in k or 'PinDerefMutHelper' in p:
            w = a0 = args[0]
            while w[0] == 'r':
                w = st.get(w[1], w[2])
            if w[0] == 'a' and w[1] == PIN:
                return deref_trait(en, st, fr, args, w, None, None)
            if w[0] == 'b':
                return [(st, ('r', w[1], ()))]
        if k.startswith('core::intrinsics') or 'intrinsics::' in p:
            if fr.n in ('exp', 'expf64', 'expf32', 'powf64', 'powif64', 'floorf64', 'ceilf64', 'roundf64', 'fabs', 'sqrtf64', 'floor', 'ceil', 'round', 'powi', 'powf', 'sqrt', 'round_ties_even'):
                if LIMITS['float']:
                    n = fr.n[:-3] if fr.n.endswith(('f64', 'f32')) else fr.n
                    return [(st, ('s', ('ext', n) + tuple(lv(strip(st, a)) for a in args)))]
                return [(st, NUM)]
        # any model object behind a reference?
        return orig(st, fr, args)

    en.unknown_call = unknown

    def fu_either(en, st, fr, a):
        o, p = st.deref(a[0])
        v = st.get(o, p)
        return en.call_trait(st, fr, 'core::future::future::Future', 'poll', [pin(('r', o, p + (0,))), a[1]])
    for n in ('poll', 'try_poll'):
        M[('futures_util::future::either::Either', n)] = fu_either


def strip1(st, v):
    if v[0] in ('r', 'b'):
        return st.get(*st.deref(v))
    return v


def n_default_first(en, st, fr, a):
    """Default::default: the workspace's own impl if there is one"""
    if fr.res and en.C.body(fr.res) is not None and en.C.body(fr.res).crate.startswith('tower'):
        return en.run_body(st, en.C.body(fr.res), a)
    return n_default(en, st, fr, a)


def into_iter_m(en, st, fr, a):
    if a[0][0] == 'r':
        return im_iter(en, st, None, a)
    return [(st, lib('Iter', ('t', a[0][3])))]


def pin_as_mut(en, st, fr, a):
    """Pin<P>::as_mut(&mut self) -> Pin<&mut P::Target>"""
    v = a[0]
    if v[0] == 'r':
        v = st.get(v[1], v[2])
    if v[0] == 'a' and v[1] == PIN:
        w = v[3][0]
        if w[0] == 'b':
            return [(st, pin(('r', w[1], ())))]
        if w[0] == 'rc':
            return [(st, pin(('r', w[1], (0,))))]
        if w[0] == 's':
            o = st.new(('s', ('*', w[1])))
            return [(st, pin(('r', o, ())))]
        return [(st, pin(w))]
    if v[0] == 's':
        o, p = st.deref(a[0])
        ob = st.new(('s', ('*', v[1])))
        st.put(o, p, pin(('b', ob)))
        return [(st, pin(('r', ob, ())))]
    return en.havoc(st, 'Pin::as_mut', a)


def pin_set(en, st, fr, a):
    v = a[0]
    o, p = st.deref(v)
    if v[0] == 'r':
        w = st.get(o, p)
        if w[0] == 'a' and w[1] == PIN:
            o, p = st.deref(w)
    out = []
    for s in en.drop_at(st, o, p):
        s.put(o, p, a[1])
        out.append((s, UNIT))
    return out
