"""python3-vt -m czv.check <property id>: decide one property of the C code on /repo's current source."""
import sys, os, json, time, traceback, multiprocessing as mp
from . import props, run, contracts, creplay, nvec

ROOT = props.ROOT
_U, _ALLOWED = None, None

def crash(u, x):
    return dict(unit=u, obs=[], error="internal: " + "".join(traceback.format_exception_only(type(x), x)).strip()[:600], stats={}, inlined=[], contracts=[], notes=[], paths=0, wall=0)

def do(a):
    i, deadline, scale = a
    u = _U[i]
    t = time.time()
    try:
        from . import eng
        if hasattr(eng, "SCALE"):
            eng.SCALE[0] = scale
        d = run.run(u, deadline, _ALLOWED)
    except Exception as x:
        if os.environ.get("CZV_DEBUG"):
            traceback.print_exc()
        d = crash(u.id, x)
    d["i"] = i
    d["wall"] = time.time() - t
    return d

def pool_run(us, allowed, budget, end, scale=1.0, n=None):
    """every unit, in a pool; deadline per unit"""
    global _U, _ALLOWED
    _U, _ALLOWED = us, allowed
    n = n or int(os.environ.get("CZV_JOBS", "8"))
    if not us:
        return []
    out = {}
    ctx = mp.get_context("fork")
    with ctx.Pool(min(n, len(us)), maxtasksperchild=6) as pool:
        # heavy units first
        order = sorted(range(len(us)), key=lambda i: -getattr(us[i], "weight", 1))
        jobs = [(i, pool.apply_async(do2, (i, budget, end, scale))) for i in order]
        for i, j in jobs:
            try:
                out[i] = j.get(max(1, end + 30 - time.time()))
            except mp.TimeoutError:
                out[i] = dict(crash(us[i].id, Exception("out of time")), error="out of time", i=i)
            except Exception as x:
                out[i] = dict(crash(us[i].id, x), i=i)
        pool.terminate()
    return [out[i] for i in range(len(us))]

def do2(i, budget, end, scale):
    return do((i, min(time.time() + budget, end), scale))

def known(pid):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % pid):
                out.append(l.strip().split(" ", 2)[2])
    return out

def args_of(spec, seed, tier):
    out = []
    for a in spec:
        if a == "{seed}":
            a = str(seed)
        elif a.startswith("{reps:"):
            _, q, t = a.strip("{}").split(":")
            a = q if tier == "quick" else t
        out.append(a)
    return out

def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--thorough" in argv:
        tier = "thorough"
    t0 = time.time()
    prop = props.PROPS[pid]
    reps = [creplay.start(d[0], d[1], d[2], args_of(d[3], seed, tier), timeout=300 if tier == "quick" else 500) for d in prop.drivers]
    end = t0 + (700 if tier == "quick" else 780)
    # the source, once, before the processes fork
    fs = []
    used = sorted({c for u in prop.units for c in u.contracts})
    proofs = [u for u in nvec.UNITS if any(u.id.startswith(contracts.PROOF[c]) for c in used)] if used else []
    proofs += [u for u in getattr(props, "PROOF_UNITS", []) if any(u.id.startswith(contracts.PROOF[c]) for c in used)]
    for u in proofs + prop.units:
        if u.files not in fs:
            fs.append(u.files)
    for f in fs:
        try:
            run.program(f)
        except Exception:
            pass
    # (1) contracts used at call sites against the bodies they stand for
    pres = pool_run(proofs, None, 120, end)
    allowed = set()
    ctab = []
    for c in used:
        mine = [d for d in pres if d["unit"].startswith(contracts.PROOF[c])]
        ok = bool(mine) and all(not d["error"] and d["obs"] and all(o["ok"] for o in d["obs"]) for d in mine)
        if ok:
            allowed.add(c)
        ctab.append(dict(function=c, contract=contracts.TEXT[c], obligations=sum(len(d["obs"]) for d in mine), verified=ok, note="" if ok else "not used: callers are checked against the body"))
    # (2) the property's units; a callee whose contract is not verified is entered through its body
    budget = 240 if tier == "quick" else 400
    res = pool_run(prop.units, allowed, budget, end)
    again = [i for i, d in enumerate(res) if d["error"] == "out of time" or (not d["error"] and any(not o["ok"] and "counter" not in o["detail"] for o in d["obs"]))]
    if again and time.time() - t0 < 330:
        r2 = pool_run([prop.units[i] for i in again], allowed, 250, end, 4.0, 4)
        bad = lambda d: 10**6 if d["error"] else sum(not o["ok"] for o in d["obs"])
        for i, d in zip(again, r2):
            if bad(d) < bad(res[i]):
                res[i] = d
    for r in reps:
        creplay.finish(r)
    return report(pid, prop, tier, seed, t0, pres, ctab, res, reps)

def report(pid, prop, tier, seed, t0, pres, ctab, res, reps):
    failed, reach = [], []
    nobs = ndis = 0
    back, solver, inl, notes = {}, 0.0, set(), set()
    for d in res:
        if d["error"]:
            reach.append((d["unit"], d["error"]))
        for o in d["obs"]:
            nobs += 1
            if o["ok"]:
                ndis += 1
                back[o["backend"]] = back.get(o["backend"], 0) + 1
            elif o["imprecise"]:
                reach.append((d["unit"], "needs a loop fact that was not inferred: " + o["name"]))
            else:
                failed.append((d["unit"], o))
        inl |= set(d["inlined"])
        notes |= set(d["notes"])
    for d in pres:
        for o in d["obs"]:
            if o["ok"]:
                nobs += 1
                ndis += 1
                back[o["backend"]] = back.get(o["backend"], 0) + 1
    for d in res + pres:
        solver += d["stats"].get("solver_s", 0) if d["stats"] else 0
    fails = [x for r in reps for x in r.fails]
    execs = sum(r.evaluations for r in reps)
    rerr = "; ".join(r.error for r in reps if r.error)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    rfile = os.path.join(ROOT, "evidence", "%s.replay.txt" % pid)
    viol, line = 0, None
    def lst(f):
        for u, o in failed[:100]:
            f.write("obligation: %s\n unit: %s\n where: %s\n solver: %s: %s\n\n" % (o["name"], u, o["where"], o["backend"], o["detail"]))
    if fails:
        viol = len(fails)
        with open(rfile, "w") as f:
            f.write("property %s: failing input on the real code\n\n%s\n\nreproduce: %s\n\nobligations that fail on this source:\n\n" % (pid, "\n".join(fails[:200]), " | ".join(r.how for r in reps)))
            lst(f)
        line = "VIOLATION property=%s replay=%s" % (pid, rfile)
    elif failed:
        viol = len(failed)
        with open(rfile, "w") as f:
            f.write("property %s: obligations not discharged on this source; the replay search (%d executions) found no failing input\n\n" % (pid, execs))
            lst(f)
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rfile)
    bounded = [(u.id, u.bounded) for u in prop.units if u.bounded]
    isb = {u for u, _ in bounded}
    nb = sum(len(d["obs"]) for d in res if d["unit"] in isb)
    ok = [d for d in res if not d["error"] and all(o["ok"] for o in d["obs"])]
    samples = []
    for d in res:
        for o in d["obs"]:
            if len(samples) < 14 and o["cat"] == "post" and (not samples or samples[-1].split(" | ")[0] != d["unit"]):
                samples.append("%s | %s | %s" % (d["unit"], o["name"], o["backend"]))
    bobs = sum(1 for d in res if d["unit"] in isb for o in d["obs"])
    bdis = sum(1 for d in res if d["unit"] in isb for o in d["obs"] if o["ok"])
    ev = dict(property=pid, tier=tier, seed=seed, level=prop.level, wall_s=round(time.time() - t0, 2), violations=viol,
        assumptions=prop.assumptions + props.COMMON + sorted("engine note: " + n for n in notes),
        coverage=dict(obligations=nobs - bobs, discharged=ndis - bdis, checker_cmd="python3-vt -m czv.check %s" % pid, trusted_base=props.TRUSTED,
            back_ends=back, solver_seconds=round(solver, 2), units=len(res), units_fully_discharged=len([d for d in ok if d["unit"] not in isb]),
            paths=sum(d["paths"] for d in res), functions_under_contract=ctab, functions_verified_through_their_body=sorted(inl),
            bounded_units=[dict(unit=u, bound=b) for u, b in bounded], bounded_obligations=dict(label="bounded, not counted as proved", total=bobs, discharged=bdis),
            outside_reach=[dict(unit=u, why=w) for u, w in reach],
            bounded_replay=dict(label="bounded, not counted as proved", executions=execs, failures=len(fails), note=rerr[:500]),
            explanation="see bounded_units, functions_under_contract and outside_reach", samples=samples))
    with open(os.path.join(ROOT, "evidence", "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d/%d obligations discharged in %d units (%s), %d failed, %d outside reach; replay: %d executions, %d failures; %.0f s" % (
        pid, ndis, nobs, len(res), ", ".join("%s %d" % x for x in sorted(back.items())), len(failed), len(reach), execs, len(fails), time.time() - t0))
    for c in ctab:
        if not c["verified"]:
            print("  contract not verified, callers checked against the body: " + c["function"])
    for u, w in reach[:20]:
        print("  bounded only (outside the verifier's reach): %s: %s" % (u, w[:300]))
    for u, o in failed[:20]:
        print("  failed obligation: %s: %s at %s" % (u, o["name"], str(o["where"])[:200]))
    for x in fails[:10]:
        print("  failing input: " + x[:500])
    if rerr:
        print("  replay not available: " + rerr[:1500])
    for k in known(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if line:
        print(line)
        return 1
    if reps and all(r.error for r in reps) and (reach or not res):
        print("check could not decide: replay not available")
        return 2
    return 0

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
