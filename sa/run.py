"""Run components through the analysis in parallel and collect the findings."""
import os, pickle, resource, select, signal, sys, time, traceback
from .engine import Facts, Engine, CheckError, Limit
from .mgc import Driver, Marathon

_F = None


def _one(args):
    name, tier, tlimit, noclone, par, probe = args
    from . import comps
    t = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    r = {"name": name, "ok": False, "states": 0, "violations": [], "suppressed": [], "note": None}
    try:
        en = Engine(_F)
        c = comps.REG[name]()
        c.tier = tier
        if noclone:
            c.clone = False
            c.handles = 1
        if tier == 'thorough':
            c.thorough()
        D = Driver(en, c)
        D.par = par
        D.probe = probe
        try:
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(int(tlimit) + 60)
            D.run(tlimit)
        finally:
            signal.alarm(0)
        r.update(ok=True, states=D.nstates, ops=D.nops, opkinds=D.opkinds, wake_obligations=D.nwake, pendings=D.npend, accesses=D.naccess, tainted=D.tainted,
                 truncated=D.truncated, results=D.results,
                 functions=sorted(en.stats["functions"]), calls=en.stats["calls"], boundary=en.stats["boundary"],
                 unmodelled=en.stats["unmodelled"], obligations=en.stats["obligations"], pruned=en.stats.get("pruned", 0))
        if not noclone:
            long_runs(name, tier, en, r)
        only = getattr(c, 'ONLY', None)
        for v in en.violations.values():
            if only is not None and v.kind not in only:
                continue
            r["violations"].append({"prop": v.prop, "kind": v.kind, "what": v.what, "site": v.site, "component": v.ctx, "trace": [str(e)[:400] for e in v.trace[-120:]]})
        for v in en.suppressed.values():
            r["suppressed"].append({"prop": v.prop, "kind": v.kind, "what": v.what, "site": v.site, "component": v.ctx, "because": str(v.taint)})
    except CheckError as ex:
        r["note"] = "not analysable: %s" % ex
    except Exception as ex:   # an unsupported construct: no verdict for this component
        r["note"] = "analysis failed: %s: %s" % (type(ex).__name__, ex)
        r["traceback"] = traceback.format_exc()[-1500:]
    r["seconds"] = round(time.time() - t, 2)
    return r


def long_runs(name, tier, en, r):
    """the same rules along long histories"""
    from . import comps
    r["long_histories"] = {}
    for prof in Marathon.PROFILES:
        e = Engine(_F)
        c = comps.REG[name]()
        c.tier = tier
        try:
            M = Marathon(e, c, prof)
            if tier == 'thorough':
                M.ROUNDS, M.QUEUE = 300, 70
            signal.alarm(100)
            try:
                M.run(20 if tier == 'quick' else 60)
            finally:
                signal.alarm(0)
        except (CheckError, Limit, RecursionError) as ex:
            r["long_histories"][prof] = "not followed: %s" % (str(ex) or type(ex).__name__)
            continue
        r["long_histories"][prof] = M.nops
        for k, v in e.violations.items():
            en.violations.setdefault(k, v)


def _alarm(*a):
    raise Limit("time")


def run(mirdir, names, tier='quick', tlimit=None, procs=8, noclone=False, probe=False):
    global _F
    _F = Facts(mirdir)
    if tlimit is None:
        tlimit = 400 if tier == 'quick' else 600
    from . import comps
    order = sorted(names, key=lambda n: -getattr(comps.REG[n], 'cost', 1))
    # heavy components share their states out between workers of their own
    heavy = [n for n in order if getattr(comps.REG[n], 'cost', 1) >= 10]
    out = {}
    running = {}
    queue = list(order)
    while queue or running:
        while queue and len(running) < procs:
            n = queue.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    os.close(r)
                    res = _one((n, tier, tlimit, noclone, procs if n in heavy else 1 if len(names) > 1 else procs, probe))
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(res, f, protocol=5)
                    rc = 0
                finally:
                    os._exit(rc)
            os.close(w)
            running[r] = (n, pid, [])
        rs, _, _ = select.select(list(running), [], [])
        for r in rs:
            n, pid, buf = running[r]
            d = os.read(r, 1 << 20)
            if d:
                buf.append(d)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del running[r]
            try:
                out[n] = pickle.loads(b''.join(buf))
            except Exception:
                out[n] = {"name": n, "ok": False, "states": 0, "violations": [], "suppressed": [], "note": "analysis process ended without a result", "seconds": 0}
    return [out[n] for n in names]
