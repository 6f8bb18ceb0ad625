import json, os, sys, time
from .extract import extract, VERIF, REPO


def norm_key(pid, f):
    return "%s|%s|%s" % (f.get("component", ""), f["kind"], f["site"])


def known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("known", [])


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    from .props import P
    if pid not in P:
        sys.stderr.write("unknown property %s\n" % pid)
        return 2
    pr = P[pid]
    t0 = time.time()
    mir = extract(force=True)
    from . import run as R, comps as C, rules
    findings, notes, per, analysed = [], [], [], 0
    cov = {"explanation": "", "components": per}
    names = list(C.REG) if pr["comps"] == '*' else list(pr["comps"])
    missing = [n for n in names if n not in C.REG]
    if missing:
        sys.stderr.write("no such component: %s\n" % missing)
        return 2
    if pr["comps"] == '*':
        names = [n for n in names if not C.REG[n].prop_only]
    fns = set()
    tot = dict(states=0, operations=0, boundary_calls=0, calls=0, obligations=0, wake=0)
    if names:
        res = R.run(mir, names, tier, probe=pr["clone_diff"])
        base = {}
        if pr["clone_diff"]:
            base = {r["name"]: r for r in R.run(mir, [n for n in names if C.REG[n].clone], tier, noclone=True)}
        for r in res:
            n = r["name"]
            if r["note"]:
                notes.append("%s: %s" % (n, r["note"]))
                per.append({"component": n, "not_analysed": r["note"]})
                continue
            analysed += 1
            fns.update(r["functions"])
            d = {"component": n, "states": r["states"], "operations": r["opkinds"], "results": r["results"], "boundary": r["boundary"],
                 "obligations": r["obligations"], "fixpoint": not r["truncated"], "imprecise_states": r["tainted"], "accessor_calls": r["accesses"], "long_histories": r.get("long_histories"), "seconds": r["seconds"]}
            if r["truncated"]:
                notes.append("%s: stopped at the time/state limit after %d states" % (n, r["states"]))
            if r["unmodelled"]:
                d["unmodelled"] = r["unmodelled"]
            if r["suppressed"]:
                d["findings_on_imprecise_states_not_reported"] = len(r["suppressed"])
            per.append(d)
            tot["states"] += r["states"]
            tot["operations"] += r["ops"]
            tot["calls"] += r["calls"]
            tot["wake"] += r["wake_obligations"]
            tot["boundary_calls"] += sum(r["boundary"].values())
            tot["obligations"] += sum(r["obligations"].values())
            nb = {(v["kind"], v["site"]) for v in base.get(n, {}).get("violations", ())}
            if pr["clone_diff"]:
                # a finding which an unshared instance shows as well is not about cloning
                if n not in base or base[n]["note"]:
                    continue
            for v in r["violations"]:
                if pr["kinds"] is not None and v["prop"] not in pr["kinds"]:
                    continue
                if pr["clone_diff"] and (v["kind"], v["site"]) in nb:
                    continue
                findings.append(v)
    for rn in pr["extra"]:
        try:
            f, c, note = rules.RULES[rn](mir, tier)
        except Exception as ex:   # an unsupported construct: no verdict from this rule
            f, c, note = [], {}, "analysis failed: %s: %s" % (type(ex).__name__, ex)
        if note:
            notes.append("%s: %s" % (rn, note))
            per.append({"rule": rn, "not_analysed": note})
            continue
        analysed += 1
        per.append(dict(rule=rn, **c))
        tot["obligations"] += c.get("instances", 0)
        fns.update(c.get("functions", ()))
        for x in f:
            findings.append(x)
    if not analysed:
        sys.stderr.write("nothing could be analysed: %s\n" % "; ".join(notes))
        return 2
    kn = {k["key"]: k for k in known() if k["property"] == pid}
    new, listed = [], []
    for f in findings:
        f["key"] = norm_key(pid, f)
        (listed if f["key"] in kn else new).append(f)
    for k, e in kn.items():
        if any(f["key"] == k for f in listed):
            print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    ev = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(ev, exist_ok=True)
    cov.update(tot)
    cov["functions_analysed"] = len(fns)
    cov["functions"] = sorted(fns)[:400]
    cov["explanation"] = ("Static analysis of the MIR of /repo's current tree. %s. Counted on this run: abstract states (fixpoint over all operation sequences of the "
                          "component's most general client), operations analysed from them, calls resolved and entered, calls into user code whose every outcome was followed, "
                          "specification obligations evaluated, wake-up obligations evaluated." % pr["technique"])
    if notes:
        cov["not_analysed"] = notes
    json.dump({"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "coverage": cov,
               "assumptions": pr.get("assume") or ["std, tokio, futures, indexmap and hdrhistogram primitives behave as their contracts in sa/models.py say",
                                                   "user services, futures, streams, policies and closures keep their documented contracts"],
               "wall_s": round(time.time() - t0, 2), "violations": len(new)}, open(os.path.join(ev, pid + ".json"), "w"), indent=1, default=str)
    for n in notes:
        print("note: " + n)
    print("property=%s tier=%s components/rules=%d states=%d operations=%d functions=%d obligations=%d wall=%.1fs" % (
        pid, tier, analysed, tot["states"], tot["operations"], len(fns), tot["obligations"] + tot["wake"], time.time() - t0))
    if new:
        rp = os.path.join(ev, pid + ".replay.json")
        json.dump(new, open(rp, "w"), indent=1, default=str)
        for f in new[:20]:
            print("  %s %s at %s: %s" % (f.get("component", ""), f["kind"], f["site"], str(f["what"])[:300]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
