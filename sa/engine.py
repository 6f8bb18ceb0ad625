"""Path-sensitive, interprocedural typestate/dataflow analysis over rustc MIR.

The analysis propagates finite abstract states (disjunctively, one per distinct
combination of enum variants, small constants, resource typestates and value
provenance) through the control-flow graph of every function reached from a
public entry point.  Calls into code with MIR are inlined; calls on unknown
types (user services, futures, policies ...) are opaque boundary events whose
every contract-abiding outcome is followed.  There is no solver and no concrete
input: unknown data are provenance labels.

Abstract values (tuples):
  ('i', n)                       integer / bool / char constant
  ('f', x)                       float constant
  ('str', s)                     string constant
  ('t', (v..))                   tuple / unit
  ('a', adt, variant, (v..))     struct / enum / library model object ('lib:..')
  ('arr', (v..))                 array
  ('fn', fnref)                  function item
  ('cl', key, (v..))             closure
  ('r', obj, path)               reference / raw pointer to a heap object
  ('b', obj)                     Box (owning)
  ('rc', obj)                    Arc (shared, obj = lib:RcBox(inner, count))
  ('s', label)                   opaque value, identified by its provenance
  ('top',)                       unknown
  ('undef',)                     uninitialised / moved
"""
import json, re, os, sys

sys.setrecursionlimit(20000)

UNIT = ('t', ())
TOP = ('top',)
UNDEF = ('undef',)
LIMITS = {'depth': 6, 'float': False}      # widening of arithmetic terms
NUM = ('s', ('num?',))     # some number: nothing is known about it, two occurrences may differ
TRUE = ('i', 1)
FALSE = ('i', 0)

OPT = 'core::option::Option'
RES = 'core::result::Result'
POLL = 'core::task::poll::Poll'
PIN = 'core::pin::Pin'
BOX = 'alloc::boxed::Box'
ARC = 'alloc::rcs::arc::Arc'
CF = 'core::ops::control_flow::ControlFlow'
ORD = 'core::cmp::Ordering'


def some(v): return ('a', OPT, 1, (v,))
NONE = ('a', OPT, 0, ())
def ok(v): return ('a', RES, 0, (v,))
def err(v): return ('a', RES, 1, (v,))
def ready(v): return ('a', POLL, 0, (v,))
PENDING = ('a', POLL, 1, ())
def pin(v): return ('a', PIN, 0, (v,))
def lib(kind, *f): return ('a', 'lib:' + kind, 0, tuple(f))
def boolv(b): return TRUE if b else FALSE
def sym(*l): return ('s', tuple(l))
def I(n): return ('i', n)


LIBADT = {'lib:FO': 'futures_util::stream::futures_ordered::FuturesOrdered',
          'lib:FU': 'futures_util::stream::futures_unordered::FuturesUnordered'}


class CheckError(Exception):
    """the analysis itself cannot proceed (missing anchor ...)"""


class Limit(Exception):
    def __init__(self, why=''):
        Exception.__init__(self, why)


# ---------------------------------------------------------------- facts db


class Facts:
    def __init__(self, d, crates=("tower", "tower_layer", "tower_service", "tower_test")):
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.types = {}
        for c in crates:
            with open(os.path.join(d, c + ".json")) as fh:
                j = json.load(fh)
            tt = TypeTable(j["types"])
            self.types[c] = tt
            for k, f in j["fns"].items():
                if k not in self.fns or f["crate"] == c:
                    f["_tt"] = tt
                    f["_c"] = None
                    self.fns[k] = f
            for k, a in j["adts"].items():
                if k not in self.adts or a["crate"] == c:
                    a["_tt"] = tt
                    self.adts[k] = a
            for i in j["impls"]:
                i["_tt"] = tt
                i["crate"] = c
                i["selft"] = tt[i["self"]]
                i["targst"] = [tt[x] if isinstance(x, int) else None for x in i["targs"]]
                self.impls.append(i)
            self.traits.update(j["traits"])
        self.by_trait = {}
        for i in self.impls:
            if i["trait"]:
                self.by_trait.setdefault(i["trait"], []).append(i)
        self.by_name = {}
        for k, a in self.adts.items():
            self.by_name.setdefault(k.rsplit("::", 1)[-1], []).append(k)
        self.inherent = {}
        for i in self.impls:
            if not i["trait"] and i["selft"][0] == 'adt':
                for n, k in i["methods"].items():
                    self.inherent.setdefault((i["selft"][1], n), []).append(k)
        self._subst = {}

    def adt_field_types(self, key, args, variant):
        a = self.adts.get(key)
        if a is None:
            return None
        k = (key, args, variant)
        r = self._subst.get(k)
        if r is None:
            tt = a["_tt"]
            m = {g[0]: (args[n] if n < len(args) else ('other', '?')) for n, g in enumerate(a["generics"])}
            r = [subst(tt[f[1]], m) for f in a["variants"][variant][2]]
            self._subst[k] = r
        return r

    def find_adt(self, name, crate=None, module=None):
        c = [k for k in self.by_name.get(name, []) if (crate is None or k.split("::")[0] == crate) and (module is None or module in k)]
        return c


class TypeTable:
    def __init__(self, raw):
        self.raw = raw
        self.memo = [None] * len(raw)

    def __getitem__(self, i):
        r = self.memo[i]
        if r is not None:
            return r
        t = self.raw[i]
        k = t[0]
        g = self.__getitem__
        al = lambda l: tuple(g(x) if isinstance(x, int) else ('const', json.dumps(x)) for x in l)
        if k in ('adt', 'fndef', 'alias'):
            r = (k, t[1], al(t[2]))
        elif k in ('ref',):
            r = ('ref', g(t[1]), t[2])
        elif k in ('ptr', 'slice'):
            r = (k, g(t[1]))
        elif k == 'array':
            r = (k, g(t[1]), t[2])
        elif k == 'tuple':
            r = (k, al(t[1]))
        else:
            r = tuple(t)
        self.memo[i] = r
        return r


def subst(t, m):
    k = t[0]
    if k == 'param':
        return m.get(t[1], t)
    if k in ('adt', 'fndef', 'alias'):
        return (k, t[1], tuple(subst(x, m) for x in t[2]))
    if k == 'ref':
        return ('ref', subst(t[1], m), t[2])
    if k in ('ptr', 'slice'):
        return (k, subst(t[1], m))
    if k == 'array':
        return (k, subst(t[1], m), t[2])
    if k == 'tuple':
        return (k, tuple(subst(x, m) for x in t[1]))
    return t


INTBITS = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'u128': 128, 'i128': 128, 'usize': 64, 'isize': 64}


def normpath(p):
    """pretty path without generic arguments"""
    out = []
    depth = 0
    i = 0
    n = len(p)
    while i < n:
        if p.startswith("::<", i) and not p.startswith("::<impl", i):
            d = 0
            i += 2
            while i < n:
                if p[i] == '<':
                    d += 1
                elif p[i] == '>' and p[i - 1] != '-':
                    d -= 1
                    if d == 0:
                        i += 1
                        break
                i += 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


class FnRef:
    __slots__ = ("k", "p", "n", "kind", "res", "trait", "impl", "adt", "var", "np", "args", "rnp", "h", "tt", "rargs")

    def __init__(self, d, tt):
        self.k = d["k"]
        self.kind = d["kind"]
        self.tt = tt
        if self.kind == 'ctor':
            self.adt = d["adt"]
            self.var = d["var"]
            self.p = self.k
            self.n = self.k.rsplit("::", 1)[-1]
            self.res = None
            self.trait = None
            self.impl = None
            self.np = self.rnp = self.k
            self.args = []
            self.rargs = []
        else:
            self.p = d["p"]
            self.n = d["n"]
            self.res = d["res"]
            self.trait = d["trait"]
            self.impl = d["impl"]
            self.args = d["args"]
            self.rargs = d["rargs"]
            self.np = normpath(self.p)
            self.rnp = normpath(d["rp"]) if d.get("rp") else None
            self.adt = None
        self.h = hash((self.k, self.res, tuple(map(str, self.args))))

    def targ(self, i):
        a = self.args
        if i < len(a) and isinstance(a[i], int):
            return self.tt[a[i]]
        return None

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, FnRef) and o.k == self.k and o.res == self.res and str(o.args) == str(self.args)

    def __repr__(self):
        return "<%s>" % self.np


# ---------------------------------------------------------------- compile


class Body:
    __slots__ = ("key", "f", "argc", "locals", "blocks", "nloc", "promoted", "heads", "crate", "name", "closure", "path", "at", "sites")


class Compiler:
    def __init__(self, facts):
        self.F = facts
        self.fnrefs = {}

    def body(self, key):
        f = self.F.fns.get(key)
        if f is None:
            return None
        b = f["_c"]
        if b is None:
            b = self.compile(key, f, f)
            b.promoted = [self.compile(key, f, p) for p in f["promoted"]]
            f["_c"] = b
        return b

    def compile(self, key, f, j):
        tt = f["_tt"]
        b = Body()
        b.key = key
        b.f = f
        b.crate = f["crate"]
        b.name = f["name"]
        b.closure = f["closure"]
        b.path = f["path"]
        b.at = f["at"]
        b.argc = j["argc"]
        b.locals = [tt[x] for x in j["locals"]]
        b.nloc = len(b.locals)
        b.promoted = None
        self.tt = tt
        self.b = b
        blocks = []
        for bl in j["blocks"]:
            if bl is None:
                blocks.append(None)
                continue
            ss = []
            for s in bl[0]:
                if s[0] == '=':
                    ss.append(('=', self.place(s[1]), self.rvalue(s[2])))
                elif s[0] == 'x':
                    ss.append(('x', s[1]))
                elif s[0] == 'sd':
                    ss.append(('sd', self.place(s[1]), s[2]))
            blocks.append((tuple(ss), self.term(bl[1])))
        b.blocks = blocks
        # loop heads: targets of retreating edges in DFS order
        succ = {}
        for i, bl in enumerate(blocks):
            succ[i] = self.succs(bl[1]) if bl else ()
        heads = set()
        color = {}
        stack = [(0, iter(succ.get(0, ())))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if color.get(m) == 1:
                    heads.add(m)
                elif m not in color:
                    color[m] = 1
                    stack.append((m, iter(succ.get(m, ()))))
                    break
            else:
                color[n] = 2
                stack.pop()
        b.heads = heads
        return b

    @staticmethod
    def succs(t):
        k = t[0]
        if k == 'goto':
            return (t[1],)
        if k == 'switch':
            return tuple(x[1] for x in t[2]) + (t[3],)
        if k == 'drop':
            return (t[2],)
        if k == 'call':
            return (t[4],) if t[4] is not None else ()
        if k == 'assert':
            return (t[4],)
        return ()

    def place(self, p):
        loc = p[0]
        pr = []
        ty = self.b.locals[loc]
        for e in p[1:]:
            if e == '*':
                pr.append(('*',))
            elif e[0] == 'f':
                pr.append(('f', e[1], self.tt[e[2]]))
            elif e[0] == 'v':
                pr.append(('v', e[1]))
            elif e[0] == 'i':
                pr.append(('i', e[1]))
            elif e[0] == 'ci':
                pr.append(('ci', e[1], e[2]))
            elif e[0] == 'sub':
                pr.append(('sub', e[1], e[2], e[3]))
            else:
                pr.append(('n',))
        return (loc, tuple(pr))

    def opty(self, o):
        if o[0] == 'k':
            c = o[1]
            if c[0] == 'val' and len(c) > 2:
                return c[2]
            return None
        loc, pr = o[1]
        t = self.b.locals[loc]
        for e in pr:
            if e[0] == '*':
                t = t[1] if t and t[0] in ('ref', 'ptr') else (t[2][0] if t and t[0] == 'adt' and t[2] else None)
            elif e[0] == 'f':
                t = e[2]
        return t

    def operand(self, o):
        if o[0] in ('c', 'm'):
            return (o[0], self.place(o[1]))
        return ('k', self.const(o[1]))

    def fnref(self, d):
        r = FnRef(d, self.tt)
        return self.fnrefs.setdefault(r, r)

    def const(self, c):
        k = c[0]
        if k == 'int':
            return ('val', ('i', int(c[1])), self.tt[c[2]])
        if k == 'float':
            try:
                return ('val', ('f', float(c[1])), self.tt[c[2]])
            except ValueError:
                return ('val', ('s', ('fconst', c[1])), None)
        if k == 'fn':
            return ('val', ('fn', self.fnref(c[1])), None)
        if k == 'unit':
            return ('val', UNIT, None)
        if k == 'str':
            return ('val', ('str', c[1]), None)
        if k == 'closure':
            return ('val', ('cl', c[1], ()), None)
        if k == 'promoted':
            return ('promoted', c[1], c[2])
        if k == 'adt':
            fs = [self.const(x) for x in c[3]]
            t = self.tt[c[1]]
            if all(x[0] == 'val' for x in fs):
                vs = tuple(x[1] for x in fs)
                if t[0] == 'adt':
                    if t[1] == 'core::time::Duration':
                        ds = re.findall(r"'i', (\d+)|Scalar\(0x([0-9a-f]+)\)", repr(vs))
                        ds = [int(a) if a else int(b, 16) for a, b in ds]
                        if ds == [0, 0]:
                            return ('val', ('s', ('dur0',)), t)
                        if len(ds) == 2:
                            return ('val', ('s', ('ext', 'new', ('i', ds[0]), ('i', ds[1]))), t)
                    return ('val', ('a', t[1], c[2], vs), t)
                return ('val', ('t', vs), t)
            return ('val', ('s', ('const', json.dumps(c))), t)
        if k == 'zst':
            return ('zst', self.tt[c[1]])
        if k == 'named':
            return ('named', c[1], self.tt[c[2]])
        if k == 'rtcheck':
            return ('val', FALSE, None)
        t = self.tt[c[2]] if len(c) > 2 else None
        if t is not None and t[0] == 'adt' and t[1] == OPT and len(c) > 1 and isinstance(c[1], str) and c[1].startswith('Scalar(0x'):
            # a niche-encoded constant None
            if int(c[1][7:-1], 16) == 0 and t[2] and t[2][0][0] in ('ref', 'ptr', 'adt'):
                return ('val', NONE, t)
        return ('val', ('s', ('const', c[1] if len(c) > 1 else k)), t)

    def rvalue(self, r):
        k = r[0]
        if k == 'use':
            return ('use', self.operand(r[1]))
        if k == 'ref':
            return ('ref', self.place(r[1]), r[2])
        if k == 'bin':
            a = self.operand(r[2])
            b = self.operand(r[3])
            return ('bin', r[1], a, b, self.opty(a) or self.opty(b))
        if k == 'un':
            a = self.operand(r[2])
            return ('un', r[1], a, self.opty(a))
        if k == 'discr':
            return ('discr', self.place(r[1]))
        if k == 'agg':
            return ('agg', tuple(r[1]), tuple(self.operand(x) for x in r[2]))
        if k == 'cast':
            o = self.operand(r[2])
            return ('cast', r[1], o, self.tt[r[3]], self.opty(o))
        if k == 'repeat':
            return ('repeat', self.operand(r[1]), r[2])
        return ('unk',)

    def term(self, t):
        k = t[0]
        if k == 'goto':
            return ('goto', t[1])
        if k == 'switch':
            return ('switch', self.operand(t[1]), tuple((int(v), b) for v, b in t[2]), t[3], t[4])
        if k == 'drop':
            return ('drop', self.place(t[1]), t[2], t[3])
        if k == 'call':
            f = self.operand(t[1])
            return ('call', f, tuple(self.operand(a) for a in t[2]), self.place(t[3]), t[4], t[5])
        if k == 'assert':
            return ('assert', self.operand(t[1]), t[2], t[3], t[4], t[5])
        return (k,)


# ---------------------------------------------------------------- state


class State:
    __slots__ = ("heap", "ts", "facts", "n", "g", "trace", "taint")

    def __init__(self):
        self.heap = {}
        self.ts = {}
        self.facts = {}
        self.n = 1
        self.g = {}
        self.trace = None
        self.taint = None

    def copy(self):
        s = State.__new__(State)
        s.heap = self.heap.copy()
        s.ts = self.ts.copy()
        s.facts = self.facts.copy()
        s.n = self.n
        s.g = self.g.copy()
        s.trace = self.trace
        s.taint = self.taint
        return s

    def new(self, v):
        n = self.n
        self.n = n + 1
        self.heap[n] = v
        return n

    def fresh(self):
        n = self.n
        self.n = n + 1
        return ('#', n)

    def ev(self, *e):
        self.trace = (self.trace, e)

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    # raw access
    def get(self, obj, path):
        v = self.heap[obj]
        for p in path:
            k = v[0]
            if k == 'a':
                v = v[3][p]
            elif k == 't' or k == 'arr':
                v = v[1][p]
            elif k == 'cl':
                v = v[2][p]
            else:
                return TOP if k == 'top' else v
        return v

    def put(self, obj, path, nv):
        if not path:
            self.heap[obj] = nv
            return
        self.heap[obj] = upd(self.heap[obj], path, 0, nv)

    def deref(self, v):
        """(obj, path) for a pointer-like value, or None"""
        k = v[0]
        if k == 'r':
            return v[1], v[2]
        if k == 'b':
            return v[1], ()
        if k == 'a' and v[1] == PIN:
            return self.deref(v[3][0])
        return None


def upd(v, path, i, nv):
    if i == len(path):
        return nv
    p = path[i]
    k = v[0]
    if k == 'a':
        f = list(v[3])
        f[p] = upd(f[p], path, i + 1, nv)
        return ('a', v[1], v[2], tuple(f))
    if k == 't' or k == 'arr':
        f = list(v[1])
        f[p] = upd(f[p], path, i + 1, nv)
        return (k, tuple(f))
    if k == 'cl':
        f = list(v[2])
        f[p] = upd(f[p], path, i + 1, nv)
        return ('cl', v[1], tuple(f))
    return TOP if k == 'top' else v


# labels of resources whose typestate is forgotten with their last occurrence
RES_LABELS = {'svc', 'fut', 'mksvc', 'disc', 'ufut', 'stream', 'permit'}

# canonicalisation: renumber heap objects and fresh numbers from the roots


def canon(st, extra=(), floor=0):
    """floor: numbers below it keep their identity (they may be held by callers)"""
    omap = {}
    nmap = {}
    order = []

    times = set()
    labs = set()

    def lab(l):
        if type(l) is tuple:
            if len(l) == 2 and l[0] == '#' and type(l[1]) is int:
                m = nmap.get(l[1])
                if m is None:
                    if l[1] < floor:
                        m = nmap[l[1]] = l[1]
                    else:
                        m = nmap[l[1]] = floor + len(nmap) + 1
                return ('#', m)
            return tuple([lab(x) for x in l])
        if type(l) is frozenset:
            return frozenset(lab(x) for x in l)
        return l

    def obj(o):
        m = omap.get(o)
        if m is None:
            m = omap[o] = o if o < floor else floor + len(omap) + 1
            order.append(o)
        return m

    def val(v):
        k = v[0]
        if k == 'a':
            return ('a', v[1], v[2], tuple([val(x) for x in v[3]]))
        if k == 't' or k == 'arr':
            return (k, tuple([val(x) for x in v[1]]))
        if k == 'cl':
            return ('cl', v[1], tuple([val(x) for x in v[2]]))
        if k == 's':
            if type(v[1]) is tuple and v[1] and v[1][0] in RES_LABELS:
                labs.add(v[1])
            return ('s', lab2(v[1]))
        if k == 'r':
            return ('r', obj(v[1]), v[2])
        if k == 'b' or k == 'rc':
            return (k, obj(v[1]))
        return v

    # labels may embed values (('v', value)); treat generically: numbers only
    def lab2(l):
        if type(l) is tuple and l:
            h = l[0]
            if h == '#' and len(l) == 2 and type(l[1]) is int:
                return lab(l)
            if h == '@' and len(l) == 2 and type(l[1]) is int:
                times.add(l[1])
                return l
            if h == 'r' and len(l) == 3 and type(l[1]) is int and type(l[2]) is tuple:
                return ('r', obj(l[1]), l[2])
            if (h == 'b' or h == 'rc') and len(l) == 2 and type(l[1]) is int:
                return (h, obj(l[1]))
            return tuple([lab2(x) for x in l])
        if type(l) is frozenset:
            return frozenset(lab2(x) for x in sorted(l, key=repr))
        return l

    g = {}
    for k in sorted(st.g):
        x = st.g[k]
        g[k] = lab2(x) if type(x) in (tuple, frozenset) else x
    ex = tuple(val(e) for e in extra)
    heap = {}
    i = 0
    while i < len(order):
        o = order[i]
        i += 1
        if o in st.heap:
            heap[omap[o]] = val(st.heap[o])
    # keep typestates / facts whose every number is live
    def live(l):
        if type(l) is tuple:
            if len(l) == 2 and type(l[1]) is int:
                if l[0] == '#':
                    return l[1] in nmap
                if l[0] == '@':
                    return l[1] in times
                if l[0] in ('b', 'rc'):
                    return l[1] in omap
            if len(l) == 3 and l[0] == 'r' and type(l[1]) is int and type(l[2]) is tuple:
                return l[1] in omap
            return all(live(x) for x in l)
        return True

    ts = {}
    for k, v in st.ts.items():
        if live(k) and live(v) and (k[0] not in RES_LABELS or k in labs):
            ts[lab2(k)] = lab2(v) if type(v) in (tuple, frozenset) else v
    facts = {}
    for k, v in st.facts.items():
        if live(k):
            facts[lab2(k)] = v
    if times:
        tm = {t: (t if t < floor else floor + i + 1) for i, t in enumerate(sorted(times))}

        def ren(x):
            if type(x) is tuple:
                if len(x) == 2 and x[0] == '@' and type(x[1]) is int:
                    return ('@', tm[x[1]])
                return tuple([ren(y) for y in x])
            if type(x) is frozenset:
                return frozenset(ren(y) for y in x)
            return x

        heap = {k: ren(v) for k, v in heap.items()}
        ts = {ren(k): ren(v) for k, v in ts.items()}
        facts = {ren(k): v for k, v in facts.items()}
        g = {k: ren(v) for k, v in g.items()}
        ex = ren(ex)
    ns = State()
    ns.heap = heap
    ns.ts = ts
    ns.facts = facts
    ns.g = g
    ns.n = floor + max(len(omap), len(nmap), len(times)) + 2
    ns.trace = st.trace
    ns.taint = st.taint
    # objects and numbers share the counter: shift
    key = (tuple(sorted(heap.items())), frozenset(ts.items()), frozenset(facts.items()), tuple(sorted(g.items(), key=lambda x: x[0])), st.taint is not None, ex)
    return key, ns, ex


class Violation:
    __slots__ = ("prop", "kind", "what", "site", "trace", "taint", "ctx")

    def __init__(self, prop, kind, what, site, trace, taint, ctx):
        self.prop = prop
        self.kind = kind
        self.what = what
        self.site = site
        self.trace = trace
        self.taint = taint
        self.ctx = ctx

    def key(self):
        return (self.prop, self.kind, self.what, self.site, self.ctx)

    def args(self):
        return (self.prop, self.kind, self.what, self.site, self.trace, self.taint, self.ctx)


class Engine:
    def __init__(self, facts):
        self.F = facts
        self.C = Compiler(facts)
        self.stack = []
        self.violations = {}
        self.suppressed = {}
        self.stats = {"functions": set(), "paths": 0, "calls": 0, "boundary": {}, "unmodelled": {}, "obligations": {}, "blocks": 0, "returns": 0}
        self.natives = {}
        self.methods = {}
        self.boundary = {}
        self.dropn = {}
        self.ctx = ""
        self.hooks = []
        self.max_depth = 80
        self.budget = None
        self.listeners = []
        self.mute = 0
        self.debug = False
        from . import models
        models.install(self)

    # ---------------------------------------------------------- reporting
    def site(self):
        """innermost workspace function on the analysis call chain"""
        for b in reversed(self.stack):
            if b.crate.startswith("tower"):
                return b.path
        return "?"

    def chain(self):
        return [b.path for b in self.stack if b.crate.startswith("tower")]

    def violate(self, st, prop, kind, what, site=None):
        if st.g.get('mute'):
            return
        v = Violation(prop, kind, what, site or self.site(), st.events(), st.taint, self.ctx)
        k = v.key()
        if st.taint is not None:
            self.suppressed.setdefault(k, v)
        else:
            self.violations.setdefault(k, v)

    def emit(self, st, kind, *a):
        """boundary event: recorded in the trace and offered to the listeners"""
        st.ev(kind, *a)
        for l in self.listeners:
            l(self, st, kind, a)

    def count(self, d, k):
        x = self.stats[d]
        x[k] = x.get(k, 0) + 1

    def taint(self, st, why):
        if st.taint is None:
            st.taint = why
        self.count("unmodelled", why)

    # ---------------------------------------------------------- places
    def expand(self, st, label, ty, variant):
        """structure of an opaque value of ADT/tuple type"""
        if ty[0] == 'adt':
            k = ty[1]
            if k == BOX:
                o = st.new(('s', ('*', label)))
                return ('b', o)
            if k == ARC:
                o = st.new(lib('RcBox', ('s', ('*', label)), I(2)))
                return ('rc', o)
            ft = self.F.adt_field_types(k, ty[2], variant)
            if ft is None:
                return None
            return ('a', k, variant, tuple(('s', ('pj', label, variant, i)) for i in range(len(ft))))
        if ty[0] == 'tuple':
            return ('t', tuple(('s', ('pj', label, 0, i)) for i in range(len(ty[1]))))
        if ty[0] in ('ref', 'ptr'):
            o = st.new(('s', ('*', label)))
            return ('r', o, ())
        return None

    def place(self, st, base, body, pl):
        """resolve to (obj, path, type, value)"""
        loc, prs = pl
        obj = base + loc
        path = ()
        ty = body.locals[loc]
        v = st.heap.get(obj, UNDEF)
        variant = 0
        for e in prs:
            k = e[0]
            if k == '*':
                vk = v[0]
                if ty is not None:
                    t0 = ty[0]
                    if t0 == 'ref' or t0 == 'ptr':
                        nty = ty[1]
                    elif t0 == 'adt' and ty[2]:
                        nty = ty[2][0]
                    else:
                        nty = None
                else:
                    nty = None
                if vk == 'r':
                    obj, path = v[1], v[2]
                elif vk == 'b':
                    obj, path = v[1], ()
                elif vk == 's':
                    nv = self.expand(st, v[1], ty, 0) if ty else None
                    if nv is None:
                        nv = ('r', st.new(('s', ('*', v[1]))), ())
                    st.put(obj, path, nv)
                    obj, path = (nv[1], nv[2]) if nv[0] == 'r' else (nv[1], ())
                elif vk == 'str' or vk == 'undef':
                    obj, path = st.new(v), ()
                elif vk == 'a' and v[1] == PIN:
                    d = st.deref(v)
                    if d is None:
                        obj, path = st.new(TOP), ()
                        self.taint(st, 'deref')
                    else:
                        obj, path = d
                elif vk == 'rc':
                    obj, path = v[1], (0,)
                elif vk == 'top':
                    nv = ('r', st.new(TOP), ())
                    st.put(obj, path, nv)
                    obj, path = nv[1], ()
                else:
                    # pointer constant or inline value (e.g. &'static const)
                    obj, path = st.new(v), ()
                ty = nty
                if obj not in st.heap:
                    st.heap[obj] = TOP
                    self.taint(st, 'dangling')
                    if self.debug: print('DANGLING', body.path, pl, obj, prs)
                v = st.get(obj, path)
                variant = 0
            elif k == 'f':
                vk = v[0]
                i = e[1]
                if vk == 'a':
                    if v[1][:3] == 'co:':
                        # captured variables, then one group of saved locals per suspension point
                        if variant < 3:
                            pp = (0, i)
                        else:
                            pp = (1, variant - 3, i)
                            g = v[3][1][1]
                            if len(g) <= variant - 3 or len(g[variant - 3][1]) <= i:
                                g = list(g) + [('t', ())] * (variant - 2 - len(g))
                                h = g[variant - 3][1]
                                g[variant - 3] = ('t', h + (UNDEF,) * (i + 1 - len(h)))
                                v = ('a', v[1], v[2], (v[3][0], ('t', tuple(g))))
                                st.put(obj, path, v)
                        for x in pp:
                            v = v[3][x] if v[0] == 'a' else v[1][x]
                        path = path + pp
                    elif i < len(v[3]):
                        v = v[3][i]
                        path = path + (i,)
                    else:
                        obj, path, v = st.new(TOP), (), TOP
                        self.taint(st, 'field')
                elif vk == 't':
                    if i < len(v[1]):
                        v = v[1][i]
                        path = path + (i,)
                    elif v[1] == ():
                        obj, path, v = st.new(UNDEF), (), UNDEF
                    else:
                        obj, path, v = st.new(TOP), (), TOP
                elif vk == 'cl':
                    if i < len(v[2]):
                        v = v[2][i]
                        path = path + (i,)
                    else:
                        obj, path, v = st.new(TOP), (), TOP
                elif vk in ('r', 'b', 'rc'):
                    pass
                elif vk == 's':
                    nv = self.expand(st, v[1], ty, variant) if ty else None
                    if nv is None:
                        if ty and ty[0] == 'closure':
                            nv = None
                        obj, path, v = st.new(('s', ('pj', v[1], variant, i))), (), ('s', ('pj', v[1], variant, i))
                    elif nv[0] in ('b', 'rc', 'r'):
                        st.put(obj, path, nv)
                        v = nv
                    else:
                        st.put(obj, path, nv)
                        v = nv[3][i] if nv[0] == 'a' else nv[1][i]
                        path = path + (i,)
                elif vk == 'undef':
                    # field-wise initialisation of an aggregate
                    n = i + 1
                    if ty and ty[0] == 'tuple':
                        n = max(n, len(ty[1]))
                        nv = ('t', (UNDEF,) * n)
                    elif ty and ty[0] == 'adt':
                        ft = self.F.adt_field_types(ty[1], ty[2], variant)
                        n = max(n, len(ft) if ft else n)
                        nv = ('a', ty[1], variant, (UNDEF,) * n)
                    else:
                        nv = ('t', (UNDEF,) * n)
                    st.put(obj, path, nv)
                    v = UNDEF
                    path = path + (i,)
                else:
                    obj, path, v = st.new(TOP), (), TOP
                ty = e[2]
                variant = 0
            elif k == 'v':
                variant = e[1]
            elif k == 'i' or k == 'ci':
                if k == 'i':
                    iv = st.heap.get(base + e[1], TOP)
                    idx = iv[1] if iv[0] == 'i' else None
                else:
                    idx = e[1]
                    if e[2]:
                        idx = None
                els = v[1] if v[0] == 'arr' else (v[3] if v[0] == 'a' and v[1] == 'lib:Vec' else None)
                if els is not None and k == 'ci' and e[2]:
                    idx = len(els) - e[1]
                if els is None or idx is None or not (0 <= idx < len(els)):
                    if els is not None and idx is None and len(els) == 1:
                        idx = 0
                        v = els[0]
                        path = path + (0,)
                    else:
                        obj, path, v = st.new(TOP), (), TOP
                        self.taint(st, 'index')
                else:
                    v = els[idx]
                    path = path + (idx,)
                ty = ty[1] if ty and ty[0] in ('array', 'slice') else None
            elif k == 'sub':
                obj, path, v = st.new(TOP), (), TOP
                self.taint(st, 'subslice')
        return obj, path, ty, v

    def operand(self, st, base, body, o):
        k = o[0]
        if k == 'k':
            return self.constant(st, body, o[1])
        loc, prs = o[1]
        if not prs:
            v = st.heap.get(base + loc, UNDEF)
            if k == 'm':
                st.heap[base + loc] = UNDEF
            return v
        obj, path, ty, v = self.place(st, base, body, o[1])
        if k == 'm' and body.closure == 'coroutine' and obj < base:
            w = st.heap.get(obj)
            if w is not None and self.in_coroutine(w, path):
                st.put(obj, path, UNDEF)
        return v

    @staticmethod
    def in_coroutine(w, path):
        for x in path:
            if w[0] == 'a':
                if w[1][:3] == 'co:':
                    return True
                w = w[3][x]
            elif w[0] in ('t', 'arr'):
                w = w[1][x]
            elif w[0] == 'cl':
                w = w[2][x]
            else:
                return False
        return False

    def constant(self, st, body, c):
        k = c[0]
        if k == 'val':
            return c[1]
        if k == 'promoted':
            b = self.C.body(c[1])
            if b is None:
                return TOP
            # a promoted is a constant: evaluate its (straight-line) body
            outs = self.run_body(st, b.promoted[c[2]], [], True)
            if len(outs) == 1 and outs[0][0] is st:
                return outs[0][1]
            if outs:
                s2, v = outs[0]
                st.heap = s2.heap
                st.n = s2.n
                return v
            return TOP
        if k == 'zst':
            return self.zst(c[1])
        if k == 'named':
            return ('s', ('const', c[1]))
        return TOP

    def zst(self, t):
        if t[0] == 'adt':
            a = self.F.adts.get(t[1])
            if a is not None and a["kind"] == "struct":
                ft = self.F.adt_field_types(t[1], t[2], 0)
                return ('a', t[1], 0, tuple(self.zst(x) for x in ft))
        if t[0] == 'tuple':
            return ('t', tuple(self.zst(x) for x in t[1]))
        if t[0] == 'closure':
            return ('cl', t[1], ())
        if t[0] == 'fndef':
            return ('s', ('fndef', t[1]))
        return UNIT

    # ---------------------------------------------------------- rvalues
    def cmp_label(self, st, op, a, b):
        """predicate over opaque values -> value (constant when decided)"""
        neg = False
        if op in ('Ge', 'Le') and (a[0] == 'f') != (b[0] == 'f') and 's' in (a[0], b[0]):
            # partial order: not the negation of 'less'
            if op == 'Ge':
                a, b = b, a
            l = ('le', lv(a), lv(b))
            f = st.facts.get(l)
            if f is None and (st.facts.get(('lt', l[1], l[2])) == 1):
                f = 1
            return ('s', l) if f is None else boolv(bool(f))
        if op == 'Ge':
            op, neg = 'Lt', True
        elif op == 'Gt':
            op, a, b = 'Lt', b, a
        elif op == 'Le':
            op, a, b, neg = 'Lt', b, a, True
        elif op == 'Ne':
            op, neg = 'Eq', True
        r = None
        if a[0] in ('i', 'f') and b[0] in ('i', 'f'):
            r = (a[1] < b[1]) if op == 'Lt' else (a[1] == b[1])
        elif a == b and a[0] in ('s', 'a', 't', 'str', 'fn', 'r'):
            r = op == 'Eq'
        elif a[0] == 'str' and b[0] == 'str':
            r = (a[1] < b[1]) if op == 'Lt' else (a[1] == b[1])
        else:
            r = self.decide(st, op, a, b)
        if r is not None:
            return boolv(r != neg)
        if a[0] == 'top' or b[0] == 'top' or a == NUM or b == NUM:
            l = ('s', ('cmp?', st.fresh()))
            return l
        if op == 'Eq' and repr(b) < repr(a):
            a, b = b, a
        l = (op.lower(), lv(a), lv(b))
        f = st.facts.get(l)
        if f is not None:
            return boolv(bool(f) != neg)
        return ('s', ('not', l)) if neg else ('s', l)

    def decide(self, st, op, a, b):
        if a[0] == 's' and b[0] == 's':
            la, lb = a[1], b[1]
            if la[0] == 'now' and lb[0] == 'now':
                # the clock is monotone: a later reading is not before an earlier one
                if op == 'Lt' and la[1][1] >= lb[1][1]:
                    return False
            if la[0] == 'key' and lb[0] == 'key' and op == 'Eq':
                return la == lb
        # unsigned values are not below zero
        if op == 'Lt' and b == ('i', 0) and a[0] == 's' and len(a[1]) and a[1][0] in ('len', 'u'):
            return False
        if op == 'Lt':
            la, lb = lv(a), lv(b)
            if st.facts.get(('lt', lb, la)) == 1:
                return False
            if st.facts.get(('eq', lb, la)) == 1 or st.facts.get(('eq', la, lb)) == 1:
                return False
        if op == 'Eq':
            la, lb = lv(a), lv(b)
            if st.facts.get(('lt', lb, la)) == 1 or st.facts.get(('lt', la, lb)) == 1:
                return False
        for h in self.deciders:
            r = h(st, op, a, b)
            if r is not None:
                return r
        return None

    deciders = ()
    fold = None         # fold(st, term) -> number: integers which a rule fixes

    def binop(self, st, op, a, b, ty):
        if self.fold and ty and ty[0] == 'int' and not op[:2] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cm'):
            a, b = (('i', k) if x[0] == 's' and (k := self.fold(st, x[1])) is not None else x for x in (a, b))
        ovf = op.endswith('WithOverflow')
        if ovf:
            op = op[:-12]
        if op.endswith('Unchecked'):
            op = op[:-9]
        if ty and ty[0] == 'int' and ty[2]:
            # constants of signed types are dumped as bit patterns
            bts = INTBITS[ty[1]]
            if a[0] == 'i' and a[1] >> (bts - 1) == 1:
                a = ('i', a[1] - (1 << bts))
            if b[0] == 'i' and b[1] >> (bts - 1) == 1 and op not in ('Shl', 'Shr'):
                b = ('i', b[1] - (1 << bts))
        ak, bk = a[0], b[0]
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.cmp_label(st, op, a, b)
        if op == 'Cmp':
            if ak == 'i' and bk == 'i':
                c = (a[1] > b[1]) - (a[1] < b[1])
                return ('a', ORD, c + 1, ())
            return ('s', ('cmp3', lv(a), lv(b)))
        bits, signed = 64, False
        if ty and ty[0] == 'int':
            bits, signed = INTBITS[ty[1]], ty[2]
        if ak == 'i' and bk == 'i':
            x, y = a[1], b[1]
            r = None
            if op == 'Add':
                r = x + y
            elif op == 'Sub':
                r = x - y
            elif op == 'Mul':
                r = x * y
            elif op == 'Div' and y:
                r = int(x / y) if (x < 0) != (y < 0) else abs(x) // abs(y)
            elif op == 'Rem' and y:
                r = abs(x) % abs(y) * (-1 if x < 0 else 1)
            elif op == 'BitAnd':
                r = x & y
            elif op == 'BitOr':
                r = x | y
            elif op == 'BitXor':
                r = x ^ y
            elif op == 'Shl':
                r = x << (y % bits)
            elif op == 'Shr':
                r = x >> (y % bits)
            if r is not None:
                lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
                if ty and ty[0] == 'bool':
                    lo, hi = 0, 1
                of = not (lo <= r <= hi)
                if of:
                    r &= (1 << bits) - 1
                    if signed and r >> (bits - 1):
                        r -= 1 << bits
                res = ('i', r)
                return ('t', (res, boolv(of))) if ovf else res
        elif ak == 'f' and bk == 'f' and op in ('Add', 'Sub', 'Mul', 'Div'):
            x, y = a[1], b[1]
            try:
                r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Div': lambda: x / y}[op]()
                return ('f', r)
            except ZeroDivisionError:
                pass
        if ty and ty[0] == 'bool':
            # three-valued logic
            if op == 'BitAnd':
                if a == FALSE or b == FALSE:
                    return FALSE
                if a == TRUE:
                    return b
                if b == TRUE:
                    return a
            if op == 'BitOr':
                if a == TRUE or b == TRUE:
                    return TRUE
                if a == FALSE:
                    return b
                if b == FALSE:
                    return a
            if op == 'BitXor':
                if a == FALSE:
                    return b
                if b == FALSE:
                    return a
        if op in ('Add', 'Sub') and b == ('i', 0):
            r = a
        elif op == 'Add' and a == ('i', 0):
            r = b
        elif ak == 'top' or bk == 'top':
            r = TOP
        else:
            r = ('s', (op.lower(), lv(a), lv(b)))
            if (ty and ty[0] == 'float' and not LIMITS['float']) or a == NUM or b == NUM or label_depth(r[1]) > LIMITS['depth']:
                r = NUM
        return ('t', (r, FALSE)) if ovf else r

    def truth(self, st, v):
        """decided truth / integer value of a switch operand, or None"""
        if v[0] == 'i':
            return v[1]
        if v[0] == 's':
            l = v[1]
            neg = False
            while l[0] == 'not':
                neg = not neg
                l = l[1]
            f = st.facts.get(l)
            if f is not None:
                return (1 - f) if neg else f
        return None

    def assume(self, st, v, n):
        if v[0] == 's':
            l = v[1]
            neg = False
            while l[0] == 'not':
                neg = not neg
                l = l[1]
            st.facts[l] = (1 - n) if neg else n

    def rvalue(self, st, base, body, rv, dst_ty=None):
        """returns value, or ('FORK', [(state_mutator)...])"""
        k = rv[0]
        if k == 'use':
            return self.operand(st, base, body, rv[1])
        if k == 'ref':
            obj, path, ty, v = self.place(st, base, body, rv[1])
            if v[0] == 's' and v[1][0] == '*' and False:
                pass
            return ('r', obj, path)
        if k == 'bin':
            a = self.operand(st, base, body, rv[2])
            b = self.operand(st, base, body, rv[3])
            return self.binop(st, rv[1], a, b, rv[4])
        if k == 'un':
            a = self.operand(st, base, body, rv[2])
            if rv[1] == 'Not':
                t = rv[3]
                if t and t[0] == 'bool':
                    if a[0] == 'i':
                        return ('i', 1 - a[1])
                    if a[0] == 's':
                        return ('s', a[1][1]) if a[1][0] == 'not' else ('s', ('not', a[1]))
                    return a
                if a[0] == 'i' and t and t[0] == 'int':
                    bits = INTBITS[t[1]]
                    return ('i', ~a[1] if t[2] else (~a[1]) & ((1 << bits) - 1))
                return ('s', ('bnot', lv(a))) if a[0] != 'top' else TOP
            if rv[1] == 'Neg':
                if a[0] in ('i', 'f'):
                    return (a[0], -a[1])
                return ('s', ('neg', lv(a))) if a[0] != 'top' else TOP
            if rv[1] == 'PtrMetadata':
                d = st.deref(a)
                if d:
                    v = st.get(*d)
                    if v[0] == 'arr':
                        return ('i', len(v[1]))
                    if v[0] == 'a' and v[1] == 'lib:Vec':
                        return ('i', len(v[3]))
                return ('s', ('len', lv(a)))
            return TOP
        if k == 'agg':
            fs = tuple([self.operand(st, base, body, x) for x in rv[2]])
            kk = rv[1][0]
            if kk == 'adt':
                if rv[1][1] == PIN or True:
                    return ('a', rv[1][1], rv[1][2], fs)
            if kk == 'tuple':
                return ('t', fs)
            if kk == 'array':
                return ('arr', fs)
            if kk == 'closure':
                return ('cl', rv[1][1], fs)
            if kk == 'rawptr':
                return fs[0]
            if kk == 'coroutine':
                return ('a', 'co:' + rv[1][1], 0, (('t', fs), ('t', ())))
            return TOP
        if k == 'cast':
            a = self.operand(st, base, body, rv[2])
            return self.cast(st, rv[1], a, rv[3], rv[4])
        if k == 'repeat':
            a = self.operand(st, base, body, rv[1])
            if rv[2] is not None and rv[2] <= 16:
                return ('arr', (a,) * rv[2])
            return ('s', ('repeat', lv(a)))
        return TOP

    def cast(self, st, kind, a, ty, from_ty):
        if kind == 'IntToInt':
            if a[0] == 'i':
                if ty[0] == 'int':
                    bits = INTBITS[ty[1]]
                    r = a[1] & ((1 << bits) - 1)
                    if ty[2] and r >> (bits - 1):
                        r -= 1 << bits
                    return ('i', r)
                return a
            if a[0] == 'a' and not a[3]:
                ad = self.F.adts.get(a[1])
                if ad:
                    return ('i', int(ad["variants"][a[2]][1]))
            if a[0] == 's':
                if ty[0] == 'int' and from_ty and from_ty[0] == 'int' and INTBITS[ty[1]] <= 32 < INTBITS[from_ty[1]] <= 64:
                    return ('s', ('cvt', 'Trunc%d' % INTBITS[ty[1]], a[1]))     # wraps around
                return a
            return a
        if kind in ('IntToFloat', 'FloatToInt', 'FloatToFloat'):
            if a[0] in ('i', 'f'):
                if kind == 'FloatToInt':
                    if a[1] != a[1]:
                        return ('i', 0)
                    if abs(a[1]) == float('inf'):
                        bits = INTBITS[ty[1]]
                        hi = (1 << (bits - 1)) - 1 if ty[2] else (1 << bits) - 1
                        lo = -(1 << (bits - 1)) if ty[2] else 0
                        return ('i', hi if a[1] > 0 else lo)
                    bits = INTBITS[ty[1]]
                    hi = (1 << (bits - 1)) - 1 if ty[2] else (1 << bits) - 1
                    lo = -(1 << (bits - 1)) if ty[2] else 0
                    return ('i', max(lo, min(hi, int(a[1]))))
                return ('f', float(a[1]))
            if a[0] == 's':
                return ('s', ('cvt', kind, a[1]))
            return a
        return a

    # ---------------------------------------------------------- execution
    def run_body(self, st, body, args, keep=False):
        """returns [(state, value)] for every path that returns"""
        if len(self.stack) > self.max_depth:
            self.taint(st, 'depth')
            return [(st, TOP)]
        base = st.n
        nloc = body.nloc
        st.n = base + nloc
        h = st.heap
        for i, a in enumerate(args):
            h[base + 1 + i] = a
        self.stack.append(body)
        self.stats["functions"].add(body.key)
        outs = []
        work = [(st, 0, 0, True)]
        visited = set() if body.heads else None
        blocks = body.blocks
        heads = body.heads
        try:
            while work:
                st, bb, ip, head = work.pop()
                while True:
                    if head:
                        self.stats["blocks"] += 1
                        if self.budget is not None:
                            self.budget -= 1
                            if self.budget < 0:
                                raise Limit()
                        if bb in heads:
                            key = self.loop_key(st, base, nloc, bb)
                            if key in visited:
                                self.stats["paths"] += 1
                                break
                            visited.add(key)
                            if len(visited) > 4000:
                                raise Limit()
                    bl = blocks[bb]
                    if bl is None:
                        break
                    ss, term = bl
                    dead = False
                    n = len(ss)
                    while ip < n:
                        s = ss[ip]
                        k = s[0]
                        if k == '=':
                            rv = s[2]
                            if rv[0] == 'discr':
                                r = self.discr(st, base, body, rv[1])
                                if type(r) is list:
                                    # unknown variant: continue once per variant from this statement
                                    for s2 in r[1:]:
                                        work.append((s2, bb, ip, False))
                                    if not r:
                                        dead = True
                                        break
                                    st = r[0]
                                    continue
                                v = r
                            else:
                                v = self.rvalue(st, base, body, rv)
                            loc, prs = s[1]
                            if prs:
                                obj, path, ty, old = self.place(st, base, body, s[1])
                                st.put(obj, path, v)
                            else:
                                st.heap[base + loc] = v
                        elif k == 'x':
                            st.heap.pop(base + s[1], None)
                        elif k == 'sd':
                            obj, path, ty, old = self.place(st, base, body, s[1])
                            if old[0] == 'a':
                                if old[1][:3] == 'co:' and s[2] in (1, 2):
                                    st.put(obj, path, ('a', old[1], s[2], (('t', ()), ('t', ()))))
                                else:
                                    st.put(obj, path, ('a', old[1], s[2], old[3]))
                            elif old[0] == 'undef' and ty and ty[0] == 'adt':
                                st.put(obj, path, ('a', ty[1], s[2], ()))
                        ip += 1
                    if dead:
                        break
                    ip = 0
                    head = True
                    k = term[0]
                    if k == 'goto':
                        bb = term[1]
                        continue
                    if k == 'switch':
                        v = self.operand(st, base, body, term[1])
                        t = self.truth(st, v)
                        if t is not None:
                            for val, tb in term[2]:
                                if val == t or (t < 0 and val in (t + 256, t + 65536, t + (1 << 32), t + (1 << 64), t + (1 << 128))):
                                    bb = tb
                                    break
                            else:
                                bb = term[3]
                            continue
                        if v[0] == 'top' or v[0] == 'undef':
                            self.taint(st, 'switch-on-unknown')
                        isb = len(term[2]) == 1 and term[2][0][0] == 0
                        arms = term[2]
                        if self.deciders and v[0] == 's':
                            dec = [(val, tb, self.decide(st, 'Eq', v, I(val))) for val, tb in arms]
                            yes = [tb for val, tb, d in dec if d]
                            if yes:
                                bb = yes[0]
                                continue
                            arms = [(val, tb) for val, tb, d in dec if d is None]
                            isb = isb and arms
                        for val, tb in arms:
                            s2 = st.copy()
                            self.assume(s2, v, val)
                            if self.feasible(s2):
                                work.append((s2, tb, 0, True))
                        if isb and v[0] == 's':
                            self.assume(st, v, 1)
                            if not self.feasible(st):
                                break
                        bb = term[3]
                        if blocks[bb] is not None and blocks[bb][1][0] == 'unreachable':
                            break
                        continue
                    if k == 'ret':
                        v = st.heap.get(base, UNIT)
                        hp = st.heap
                        if not keep:
                            for i in range(base, base + nloc):
                                if i in hp:
                                    del hp[i]
                        outs.append((st, v))
                        self.stats["paths"] += 1
                        break
                    if k == 'call':
                        outs2 = self.term_call(st, base, body, term)
                        tgt = term[4]
                        if tgt is None or not outs2:
                            break
                        dst = term[3]
                        for s2, v in outs2:
                            if dst[1]:
                                obj, path, ty, old = self.place(s2, base, body, dst)
                                s2.put(obj, path, v)
                            else:
                                s2.heap[base + dst[0]] = v
                        for s2, v in outs2[1:]:
                            work.append((s2, tgt, 0, True))
                        st = outs2[0][0]
                        bb = tgt
                        continue
                    if k == 'drop':
                        obj, path, ty, v = self.place(st, base, body, term[1])
                        outs2 = self.drop_at(st, obj, path)
                        for s2 in outs2:
                            if path == () and obj >= base and obj < base + nloc:
                                s2.heap[obj] = UNDEF
                            elif body.closure == 'coroutine' and path and obj < base and obj in s2.heap and self.in_coroutine(s2.heap[obj], path):
                                s2.put(obj, path, UNDEF)
                        if not outs2:
                            break
                        for s2 in outs2[1:]:
                            work.append((s2, term[2], 0, True))
                        st = outs2[0]
                        bb = term[2]
                        continue
                    if k == 'assert':
                        v = self.operand(st, base, body, term[1])
                        t = self.truth(st, v)
                        exp = 1 if term[2] else 0
                        if t is not None and t != exp:
                            self.panic(st, "assert:" + term[3])
                            break
                        if t is None and term[3] == 'bounds':
                            self.assume(st, v, exp)
                        bb = term[4]
                        continue
                    # unreachable / other
                    break
        finally:
            self.stack.pop()
        return outs

    def feasible(self, st):
        return True

    def loop_key(self, st, base, nloc, bb):
        g = st.g.get('__loop', None)
        roots = []
        for i in range(base, base + nloc):
            v = st.heap.get(i)
            if v is not None and v[0] != 'undef':
                roots.append(('t', (('i', i - base), v)))
        # everything reachable from this frame plus the recorded roots of callers
        r = list(self.extra_roots(st))
        key, ns, ex = canon(st, tuple(roots) + tuple(r), base)
        return (bb, key)

    def extra_roots(self, st):
        x = st.g.get('roots')
        return ()

    def discr(self, st, base, body, pl):
        obj, path, ty, v = self.place(st, base, body, pl)
        k = v[0]
        if k == 'a':
            ad = self.F.adts.get(v[1])
            if ad is None:
                if v[1].startswith('co:'):
                    return ('i', v[2])
                return ('i', v[2])
            return ('i', int(ad["variants"][v[2]][1]))
        if k == 's':
            if ty and ty[0] == 'adt' and ty[1] in self.F.adts:
                ad = self.F.adts[ty[1]]
                if ad["kind"] == 'enum':
                    f = st.facts.get(('var', v[1]))
                    if f is not None:
                        st.put(obj, path, self.expand(st, v[1], ty, f))
                        return ('i', int(ad["variants"][f][1]))
                    out = []
                    n = len(ad["variants"])
                    lim = self.variant_filter(st, v[1], ty, n)
                    for i in lim:
                        s2 = st.copy() if i != lim[-1] else st
                        s2.facts[('var', v[1])] = i
                        s2.put(obj, path, self.expand(s2, v[1], ty, i))
                        out.append(s2)
                    return out
            return ('s', ('discr', v[1]))
        if k == 'top' or k == 'undef':
            if ty and ty[0] == 'adt' and ty[1] in self.F.adts and self.F.adts[ty[1]]["kind"] == 'enum':
                self.taint(st, 'variant-of-unknown')
                ad = self.F.adts[ty[1]]
                out = []
                for i in range(len(ad["variants"])):
                    s2 = st.copy()
                    ft = self.F.adt_field_types(ty[1], ty[2], i)
                    s2.put(obj, path, ('a', ty[1], i, (TOP,) * len(ft)))
                    out.append(s2)
                return out
            self.taint(st, 'discr-of-unknown')
            return TOP
        return TOP

    def variant_filter(self, st, label, ty, n):
        return list(range(n))

    # ---------------------------------------------------------- calls
    def term_call(self, st, base, body, term):
        f = self.operand(st, base, body, term[1])
        args = [self.operand(st, base, body, a) for a in term[2]]
        self.stats["calls"] += 1
        # a move operand of the same local must read before clearing: done above
        if f[0] == 'fn':
            return self.call_ref(st, f[1], args)
        return self.call_value(st, f, args)

    def call_key(self, st, key, args):
        b = self.C.body(key)
        if b is None:
            raise CheckError("no body for " + key)
        return self.run_body(st, b, args)

    def call_ref(self, st, fr, args):
        if fr.kind == 'ctor':
            return [(st, ('a', fr.adt, fr.var, tuple(args)))]
        nat = (self.natives.get(fr.rnp) if fr.rnp else None) or self.natives.get(fr.np) or self.natives.get(fr.k)
        if nat is not None:
            return nat(self, st, fr, args)
        if fr.trait in ('core::convert::Into', 'core::convert::From') and fr.n in ('into', 'from'):
            return self.convert(st, fr, fr.trait, fr.n, args)
        if fr.n == 'next_range' and fr.trait is not None and fr.trait.endswith('::Rng') and len(args) == 2:
            return self.next_range(st, fr, args)
        # method of a library model object
        if args:
            lk = self.libkind(st, args[0])
            if lk is not None:
                m = self.methods.get((lk, fr.n))
                if m is not None and not self.own_impl(fr.trait, lk):
                    return m(self, st, fr, args)
        if fr.res is not None:
            b = self.C.body(fr.res)
            if b is not None:
                if b.closure == 'coroutine':
                    return self.run_body(st, b, args)
                if b.closure is not None:
                    return self.call_closure_body(st, b, args)
                return self.run_body(st, b, args)
        if fr.trait is not None:
            return self.call_trait(st, fr, fr.trait, fr.n, args)
        return self.unknown_call(st, fr, args)

    def own_impl(self, trait, lk):
        """this trait is implemented in the repository for the library type lk"""
        return trait is not None and lk in LIBADT and any(i["selft"][0] == 'adt' and i["selft"][1] == LIBADT[lk] for i in self.F.by_trait.get(trait, ()))

    def libkind(self, st, v, depth=0):
        """kind of the library object a receiver denotes (through refs/Pin/Box)"""
        while depth < 8:
            k = v[0]
            if k == 'a':
                if v[1].startswith('lib:'):
                    return v[1]
                if v[1] == PIN:
                    v = v[3][0]
                    depth += 1
                    continue
                return None
            if k == 'r':
                if v[1] not in st.heap:
                    return None
                v = st.get(v[1], v[2])
            elif k == 'b':
                if v[1] not in st.heap:
                    return None
                v = st.heap[v[1]]
            elif k == 'rc':
                return 'lib:Arc'
            else:
                return None
            depth += 1
        return None

    def libref(self, st, v):
        """(obj, path, value) of the library object behind a receiver"""
        while True:
            k = v[0]
            if k == 'a' and v[1] == PIN:
                v = v[3][0]
                continue
            if k == 'r' or k == 'b':
                o, p = st.deref(v)
                w = st.get(o, p)
                if w[0] == 'a' and w[1].startswith('lib:'):
                    return o, p, w
                v = w
                continue
            if k == 'a':
                o = st.new(v)
                return o, (), v
            raise CheckError("libref on %r" % (v,))

    def call_closure_body(self, st, b, args):
        """args = (self, (tuple,)) through an Fn* trait, or already split"""
        selfv = args[0]
        rest = args[1:]
        if len(rest) == 1 and rest[0][0] == 't' and b.argc == 1 + len(rest[0][1]):
            rest = list(rest[0][1])
        return self.enter_closure(st, b, selfv, list(rest))

    def enter_closure(self, st, b, selfv, rest):
        kind = b.closure
        tmp = None
        if kind == 'FnOnce':
            while selfv[0] == 'r':
                selfv = st.get(selfv[1], selfv[2])
        else:
            # one level of reference expected
            while selfv[0] == 'r' and st.get(selfv[1], selfv[2])[0] == 'r':
                selfv = st.get(selfv[1], selfv[2])
            if selfv[0] != 'r':
                tmp = st.new(selfv)
                selfv = ('r', tmp, ())
        outs = self.run_body(st, b, [selfv] + rest)
        return outs

    def call_value(self, st, f, args):
        """call of a function value with already split arguments"""
        k = f[0]
        depth = 0
        g = f
        while g[0] in ('r', 'b', 'rc') or (g[0] == 'a' and g[1] == PIN):
            if g[0] == 'rc':
                g = st.get(g[1], (0,))
            else:
                g = st.get(*st.deref(g))
        k = g[0]
        if k == 'fn':
            return self.call_ref(st, g[1], args)
        if k == 'cl':
            b = self.C.body(g[1])
            if b is None:
                return self.havoc(st, 'closure', args)
            return self.enter_closure(st, b, f if f[0] == 'r' else g, list(args))
        if k == 's':
            return self.user_fn(st, g[1], args)
        if k == 'a' and g[1] == 'lib:PyFn':
            return g[3][0](self, st, args)
        return self.havoc(st, 'call-unknown-value', args)

    def user_fn(self, st, label, args):
        h = self.boundary.get(('fn', label[0])) or self.boundary.get('fn')
        return h(self, st, label, args)

    def self_value(self, st, v):
        """receiver of a trait call: (value, obj, path) after one reference level"""
        if v[0] == 'a' and v[1] == PIN:
            v = v[3][0]
        d = st.deref(v) if v[0] in ('r', 'b') else None
        if d is not None:
            if d[0] not in st.heap:
                return None, None, None
            return st.get(*d), d[0], d[1]
        return v, None, None

    BYREF = {'poll_ready', 'call', 'poll', 'poll_next', 'clone', 'load', 'check', 'retry'}

    def call_trait(self, st, fr, trait, name, args):
        """dynamic dispatch on the abstract receiver"""
        tn = trait.rsplit("::", 1)[-1]
        if tn in ('Fn', 'FnMut', 'FnOnce') and name in ('call', 'call_mut', 'call_once'):
            a = args[1]
            if a[0] == 't':
                return self.call_value(st, args[0], list(a[1]))
            return self.havoc(st, 'rust-call', args)
        if tn in ('Into', 'From', 'TryFrom', 'TryInto') and name in ('into', 'from'):
            return self.convert(st, fr, trait, name, args)
        if not args:
            return self.static_trait(st, fr, trait, name)
        recv = args[0]
        byval = self.takes_self_by_value(trait, name)
        if byval:
            v, o, p = recv, None, None
        else:
            v, o, p = self.self_value(st, recv)
            if v is None:
                return self.havoc(st, 'dangling-receiver', args)
        if v[0] == 'a' and v[1] == PIN and tn in ('Future', 'Stream', 'Deref', 'DerefMut'):
            # Pin<P>: Future
            if tn == 'Future':
                return self.call_trait(st, fr, trait, name, [v] + args[1:])
        if v[0] == 'a':
            m = self.methods.get((v[1], name))
            if m is not None and not self.own_impl(trait, v[1]):
                return m(self, st, fr, args)
            if v[1][:3] == 'co:' and name in ('poll', 'into_future'):
                b = self.C.body(v[1][3:])
                if name == 'into_future':
                    return [(st, args[0])]
                if b is not None:
                    return self.run_body(st, b, args)
        cands = self.find_impls(trait, v, st)
        if cands:
            if len(cands) > 1 and fr is not None:
                c2 = self.pick_impl(cands, fr)
                if c2:
                    cands = c2
            outs = []
            for n, i in enumerate(cands):
                s2 = st if n == len(cands) - 1 else st.copy()
                mk = i["methods"].get(name)
                if mk is None:
                    d = self.F.traits.get(trait, {}).get(name)
                    if d and self.C.body(d[0]) is not None:
                        outs += self.run_body(s2, self.C.body(d[0]), args)
                    else:
                        outs += self.unknown_call(s2, fr, args)
                else:
                    b = self.C.body(mk)
                    outs += self.run_body(s2, b, args) if b else self.unknown_call(s2, fr, args)
            return outs
        h = self.boundary.get((tn, name))
        if h is not None:
            r = h(self, st, fr, args, v, o, p)
            if r is not None:
                return r
        # references and boxes forward most traits
        if v[0] in ('r', 'b') and not byval:
            return self.call_trait(st, fr, trait, name, [v] + args[1:])
        if v[0] == 'rc' and not byval and tn not in ('Clone', 'Drop'):
            return self.call_trait(st, fr, trait, name, [('r', v[1], (0,))] + args[1:])
        # provided method body
        d = self.F.traits.get(trait, {}).get(name)
        if d and d[1] and self.C.body(d[0]) is not None and v[0] != 's':
            return self.run_body(st, self.C.body(d[0]), args)
        if fr is not None and v[0] != 's' and self.C.body(fr.k) is not None:
            return self.run_body(st, self.C.body(fr.k), args)
        if v[0] == 's':
            h = self.boundary.get('trait')
            r = h(self, st, fr, trait, name, args, v, o, p)
            if r is not None:
                return r
        return self.unknown_call(st, fr, args)

    def next_range(self, st, fr, args):
        """public contract of Rng::next_range: any value of the (non-empty) range"""
        r = args[1]
        if r[0] == 'a' and len(r[3]) == 2 and all(x[0] == 'i' for x in r[3]):
            a, b = r[3][0][1], r[3][1][1]
            if a >= b:
                self.emit(st, 'panic', 'next_range:empty-range', self.site())
                return []
            if b - a <= 8:
                out = []
                for k in range(a, b):
                    s2 = st.copy() if k != b - 1 else st
                    out.append((s2, ('i', k)))
                return out
        return [(st, ('s', ('num?',)))]

    def convert(self, st, fr, trait, name, args):
        """From::from / Into::into, directed by the static types of the call"""
        v = args[0]
        if fr is None:
            return [(st, v)]
        src, dst = fr.targ(0), fr.targ(1)
        if name == 'from':
            src, dst = dst, src
        if dst is not None and src is not None and dst[0] == 'float' and src[0] in ('int', 'float'):
            if src == dst:
                return [(st, v)]
            return [(st, self.cast(st, 'IntToFloat' if src[0] == 'int' else 'FloatToFloat', v, dst, src))]
        if dst is None or dst[0] != 'adt':
            return [(st, v)]
        for i in self.F.by_trait.get('core::convert::From', []):
            if unify(i["selft"], dst) and len(i["targst"]) > 1 and (src is None or unify(i["targst"][1], src)) and i["methods"].get('from'):
                b = self.C.body(i["methods"]['from'])
                if b is not None:
                    return self.run_body(st, b, args)
        if src is not None and src[0] == 'adt' and src[1] == dst[1]:
            return [(st, v)]
        if dst[1] == POLL:
            return [(st, v if v[0] == 'a' and v[1] == POLL else ready(v))]
        if dst[1] == OPT:
            return [(st, v if v[0] == 'a' and v[1] == OPT else some(v))]
        if dst[1] == PIN:
            return [(st, v if v[0] == 'a' and v[1] == PIN else pin(v))]
        if dst[1] == ARC and v[0] != 'rc':
            return [(st, ('rc', st.new(lib('RcBox', v, I(1)))))]
        return [(st, v)]

    def pick_impl(self, cands, fr):
        t = fr.targ(1)
        if t is None:
            return None
        out = [i for i in cands if len(i["targst"]) > 1 and unify(i["targst"][1], t)]
        return out or None

    BYVAL = {('Layer', 'layer'): False, ('IntoIterator', 'into_iter'): True, ('FnOnce', 'call_once'): True, ('Into', 'into'): True,
             ('From', 'from'): True, ('TrackCompletion', 'track_completion'): False}

    def takes_self_by_value(self, trait, name):
        tn = trait.rsplit("::", 1)[-1]
        b = self.BYVAL.get((tn, name))
        if b is not None:
            return b
        # any implementation tells us the receiver type
        for i in self.F.by_trait.get(trait, []):
            k = i["methods"].get(name)
            b = self.C.body(k) if k else None
            if b and b.argc >= 1:
                t = b.locals[1]
                if t[0] == 'ref':
                    return False
                if t[0] == 'adt' and t[1] == PIN:
                    return False
                return True
        return False

    def static_trait(self, st, fr, trait, name):
        if fr is not None and fr.n == 'default':
            t = fr.targ(0)
            if t is not None:
                return [(st, self.default_of(st, t))]
        return [(st, ('s', ('static', trait, name)))]

    def default_of(self, st, t):
        if t[0] == 'int':
            return I(0)
        if t[0] == 'bool':
            return FALSE
        if t[0] == 'adt' and t[1] == OPT:
            return NONE
        if t[0] == 'tuple':
            return ('t', tuple(self.default_of(st, x) for x in t[1]))
        from .models import dflt
        v = dflt(self, st, t)
        return v if v is not None else ('s', ('default', t[1] if len(t) > 1 else '?'))

    def find_impls(self, trait, v, st=None):
        out = []
        for i in self.F.by_trait.get(trait, []):
            s = i["selft"]
            if s[0] == 'adt' and v[0] == 'a' and (s[1] == v[1] or s[1] == LIBADT.get(v[1])):
                out.append(i)
            elif s[0] == 'adt' and s[1] == BOX and v[0] == 'b':
                out.append(i)
            elif s[0] == 'adt' and s[1] == ARC and v[0] == 'rc':
                out.append(i)
            elif s[0] == 'tuple' and v[0] == 't' and len(s[1]) == len(v[1]):
                out.append(i)
            elif s[0] == 'ref' and v[0] == 'r':
                out.append(i)
            elif s[0] == 'param' and v[0] in ('a', 'cl', 'fn', 't', 's'):
                # blanket impl
                if v[0] != 's' and not any(j is not i and j["selft"][0] != 'param' for j in self.F.by_trait.get(trait, []) if self.impl_match(j, v)):
                    out.append(i)
                elif v[0] == 's' and trait.startswith(('tower::', 'tower_')) and trait.rsplit("::", 1)[-1] in ('ServiceExt', 'MakeService', 'Discover', 'Sealed', 'MakeConnection', 'CloneService'):
                    if v[1][0] in self.blanket_ok.get(trait.rsplit("::", 1)[-1], ()):
                        out.append(i)
        return out

    blanket_ok = {'Discover': ('stream',), 'Sealed': ('stream',), 'ServiceExt': ('svc', 'clone'), 'MakeService': ('mksvc',), 'MakeConnection': ('svc',)}

    def impl_match(self, i, v):
        s = i["selft"]
        return s[0] == 'adt' and v[0] == 'a' and (s[1] == v[1] or s[1] == LIBADT.get(v[1]))

    def unknown_call(self, st, fr, args):
        name = fr.rnp or fr.np if fr is not None else '?'
        return self.havoc(st, name, args)

    def havoc(self, st, name, args):
        """unmodelled operation: result unknown, anything mutable it can reach unknown"""
        self.taint(st, name)
        return [(st, TOP)]

    def panic(self, st, kind):
        self.emit(st, 'panic', kind, self.site())

    # ---------------------------------------------------------- drop
    def drop_at(self, st, obj, path):
        """run drop glue on the value at a place; returns states"""
        if obj not in st.heap:
            return [st]
        v = st.get(obj, path)
        k = v[0]
        if k == 'i' or k == 'undef' or k == 'r' or k == 'fn' or k == 'str' or k == 'f' or k == 'top':
            return [st]
        if k == 's':
            self.emit(st, 'drop', v[1])
            return [st]
        if k == 't' or k == 'arr':
            return self.drop_fields(st, obj, path, len(v[1]))
        if k == 'cl':
            return self.drop_fields(st, obj, path, len(v[2]))
        if k == 'b':
            outs = self.drop_at(st, v[1], ())
            for s in outs:
                s.heap.pop(v[1], None)
            return outs
        if k == 'rc':
            o = v[1]
            if o not in st.heap:
                return [st]
            bx = st.heap[o]
            n = bx[3][1]
            if n[0] == 'i' and n[1] > 1:
                st.heap[o] = ('a', bx[1], 0, (bx[3][0], I(n[1] - 1)))
                return [st]
            if n[0] == 'i' and n[1] == 1:
                st.heap[o] = ('a', bx[1], 0, (bx[3][0], I(0)))
                outs = self.drop_at(st, o, (0,))
                for s in outs:
                    s.heap.pop(o, None)
                return outs
            return [st]
        if k == 'a':
            key = v[1]
            if key.startswith('lib:'):
                h = self.dropn.get(key)
                if h is not None:
                    return h(self, st, obj, path, v)
                return self.drop_fields(st, obj, path, len(v[3]))
            if key == 'core::mem::manually_drop::ManuallyDrop' or key.endswith('MaybeUninit') or key.endswith('PhantomData'):
                return [st]
            ad = self.F.adts.get(key)
            states = [st]
            if ad is not None and ad["drop"]:
                b = self.C.body(ad["drop"])
                if b is not None and b.crate not in ('alloc', 'std', 'core'):
                    states = [s for s, _ in self.run_body(st, b, [('r', obj, path)])]
            out = []
            for s in states:
                v2 = s.get(obj, path) if obj in s.heap else None
                if v2 is not None and v2[0] == 'a':
                    out += self.drop_fields(s, obj, path, len(v2[3]))
                else:
                    out.append(s)
            return out
        return [st]

    def drop_fields(self, st, obj, path, n):
        states = [st]
        for i in range(n):
            nxt = []
            for s in states:
                nxt += self.drop_at(s, obj, path + (i,))
            states = nxt
        return states

    def drop_value(self, st, v):
        o = st.new(v)
        outs = self.drop_at(st, o, ())
        for s in outs:
            s.heap.pop(o, None)
        return outs


def lv(v):
    """label form of a value"""
    if v[0] == 's':
        return v[1]
    if v[0] == 'top':
        return ('num?',)
    return v


def label_depth(l):
    if type(l) is tuple:
        return 1 + max([label_depth(x) for x in l], default=0)
    return 0


def unify(p, t, m=None):
    """does impl type p (params free) match type t?"""
    if p[0] == 'param':
        return True
    if t[0] in ('param', 'alias', 'other'):
        return True
    if p[0] == 'alias':
        return True
    if p[0] != t[0]:
        return False
    if p[0] == 'adt':
        return p[1] == t[1] and all(unify(a, b) for a, b in zip(p[2], t[2]))
    if p[0] in ('ref', 'slice', 'ptr', 'array'):
        return unify(p[1], t[1])
    if p[0] == 'tuple':
        return len(p[1]) == len(t[1]) and all(unify(a, b) for a, b in zip(p[1], t[1]))
    return p == t
