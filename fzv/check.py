"""python3-vt -m fzv.check <property id>: decide one property on /repo's current source."""
import sys, os, json, time, traceback, multiprocessing as mp
from .fparse import Program
from .core import Unsupported, Engine
from . import core, units, specs, replay, realproof
from .interp import Interp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("FZV_SRC", "/repo/src")

_P = None
_CT = None
def load():
    global _P
    if _P is None:
        _P = Program(SRC, extra=[os.path.join(ROOT, "fzv", "user.F90")])
    return _P

def pack(runs):
    obs, stats = [], dict(queries=0, solver_s=0.0, paths=0)
    inl, used, ext, notes = set(), set(), set(), set()
    for r in runs:
        e, ip = r.e, r.ip
        for o in e.obs:
            obs.append(dict(name=o.name, kind=o.kind, ok=bool(o.ok), detail=str(o.detail)[:3000], where=o.where, backend=o.backend, cat=o.cat, imprecise=o.imprecise))
        for k in stats:
            stats[k] += e.stats[k]
        inl |= ip.inlined
        used |= ip.used_contracts
        ext |= set(ip.ext_used)
        notes |= e.notes
    return dict(obs=obs, stats=stats, inlined=sorted(inl), used=sorted(used), ext=sorted(ext), notes=sorted(notes), error=None)

def do_contract(q):
    t = time.time()
    c = specs.CONTRACTS[q]
    try:
        def mk():
            e = Engine()
            e.deadline = t + 240
            return e, Interp(_P, e)
        if _P.find_proc(q) is None:
            raise Unsupported("procedure %s does not exist" % q)
        runs = c.verify(_P, mk)
        class W:
            pass
        ws = []
        for e, ip in runs:
            w = W(); w.e, w.ip = e, ip
            ws.append(w)
        d = pack(ws)
    except Unsupported as x:
        d = dict(obs=[], stats=dict(queries=0, solver_s=0.0, paths=0), inlined=[], used=[], ext=[], notes=[], error="unsupported: %s" % x)
    except Exception as x:
        d = dict(obs=[], stats=dict(queries=0, solver_s=0.0, paths=0), inlined=[], used=[], ext=[], notes=[], error="internal: %s" % "".join(traceback.format_exception_only(type(x), x)).strip())
    d["unit"], d["wall"] = "contract " + q, time.time() - t
    return d

END = [float("inf")]    # no unit runs beyond this time
def lost(uid, why):
    return dict(unit=uid, wall=0, obs=[], stats=dict(queries=0, solver_s=0.0, paths=0), inlined=[], used=[], ext=[], notes=[], error=why)

def run_units(ctx, n, jobs, chunk):
    """every unit in a pool; a unit that does not come back in time is reported as not reached"""
    out = []
    with ctx.Pool(n, maxtasksperchild=chunk) as pool:
        js = [(a, pool.apply_async(do_unit, (a,))) for a in jobs]
        for a, j in js:
            try:
                out.append(j.get(max(1, END[0] + 40 - time.time())))
            except mp.TimeoutError:
                out.append(lost(a[1], "out of time"))
            except Exception as x:
                out.append(lost(a[1], "internal: %s" % x))
        pool.terminate()
    return out

def do_unit(a):
    pid, uid, limit, scale = a
    realproof.SCALE[0] = scale
    core.WANT[0] = units.PROPS[pid].catset(uid)
    t = time.time()
    u = units.get(uid)
    d = None
    try:
        runs = u.run(_P, {q: c for q, c in specs.CONTRACTS.items() if q in _CT}, min(t + limit, END[0]))
        d = pack(runs)
    except Unsupported as x:
        d = dict(obs=[], stats=dict(queries=0, solver_s=0.0, paths=0), inlined=[], used=[], ext=[], notes=[], error="unsupported: %s" % x)
        if os.environ.get("FZV_DEBUG"):
            traceback.print_exc()
    except Exception as x:
        if os.environ.get("FZV_DEBUG"):
            traceback.print_exc()
        d = dict(obs=[], stats=dict(queries=0, solver_s=0.0, paths=0), inlined=[], used=[], ext=[], notes=[], error="internal: %s" % "".join(traceback.format_exception_only(type(x), x)).strip())
    d["unit"], d["wall"] = uid, time.time() - t
    return d

def main(argv):
    global _CT
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--thorough" in argv:
        tier = "thorough"
    t0 = time.time()
    END[0] = t0 + 720
    nproc = int(os.environ.get("FZV_JOBS", "8"))
    prop = units.PROPS[pid]
    # the concrete replay build runs beside the proofs
    rp = replay.start(pid, SRC, tier, seed)
    errors = []
    results, cres = [], []
    try:
        P = load()
    except Exception as x:
        P = None
        errors.append("front end: %s" % x)
    if P is not None:
        for f, why in P.parse_errors:
            errors.append("front end: %s: %s" % (f, why))
        limit = 600 if tier == "quick" else 750
        ctx = mp.get_context("fork")
        # (1) internal contracts against their bodies
        with ctx.Pool(nproc, maxtasksperchild=1) as pool:
            cres = pool.map(do_contract, list(specs.CONTRACTS), chunksize=1)
        _CT = set()
        for q, d in zip(specs.CONTRACTS, cres):
            if d["error"] is None and all(o["ok"] for o in d["obs"]):
                _CT.add(q)
        # contracts that rely on a dropped contract were verified against the body anyway
        # (2) units, against those contracts
        ids = prop.units
        results = run_units(ctx, nproc, [(pid, u, limit, 1.0) for u in ids], 4)
        # a unit with obligations left open for lack of time gets a second, longer attempt
        again = [d["unit"] for d in results if d["error"] is None and any(not o["ok"] and "countermodel" not in o["detail"] and prop.wants(d["unit"], o["cat"]) for o in d["obs"])]
        if again and time.time() - t0 < 300:
            replay.wait(rp)
            second = {d["unit"]: d for d in run_units(ctx, min(nproc, 4), [(pid, u, 250, 4.0) for u in again], 1)}
            bad = lambda d: 10**6 if d["error"] else sum(not o["ok"] for o in d["obs"])
            results = [second[d["unit"]] if d["unit"] in second and bad(second[d["unit"]]) < bad(d) else d for d in results]
        order = {u: i for i, u in enumerate(ids)}
        results.sort(key=lambda d: order[d["unit"]])
    lem = prop.lemmas(tier) if prop.lemmas else []
    rep = replay.finish(rp)
    return report(pid, prop, tier, seed, t0, errors, cres, results, lem, rep)

def report(pid, prop, tier, seed, t0, errors, cres, results, lem, rep):
    failed, reach = [], []
    nobs = ndis = 0
    bnd = dict(units=[], obligations=0, discharged=0)
    backends = {}
    solver = 0.0
    funcs, inl, ext, notes = {}, set(), set(), set()
    for d in results:
        if d["error"]:
            reach.append((d["unit"], d["error"]))
        for o in d["obs"]:
            if not prop.wants(d["unit"], o["cat"]):
                continue
            if units.get(d["unit"]).bounded:
                bnd["obligations"] += 1
                bnd["discharged"] += bool(o["ok"])
            else:
                nobs += 1
                ndis += bool(o["ok"])
            if o["ok"]:
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            elif o["imprecise"]:
                reach.append((d["unit"], "obligation needs a loop fact that was not inferred: " + o["name"]))
            else:
                failed.append((d["unit"], o))
        if units.get(d["unit"]).bounded:
            bnd["units"].append("%s (%s)" % (d["unit"], units.get(d["unit"]).bounded))
        solver += d["stats"]["solver_s"]
        inl |= set(d["inlined"])
        ext |= set(d["ext"])
        notes |= set(d["notes"])
    usedc = sorted({q for d in results for q in d["used"] if q in specs.CONTRACTS})
    contracts = []
    for d in cres:
        q = d["unit"].split()[1]
        ok = d["error"] is None and all(o["ok"] for o in d["obs"])
        if q in usedc:
            nobs += len(d["obs"])
            ndis += sum(o["ok"] for o in d["obs"])
            for o in d["obs"]:
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            solver += d["stats"]["solver_s"]
        contracts.append(dict(procedure=q, contract=specs.CONTRACTS[q].text, obligations=len(d["obs"]), verified=ok, used_here=q in usedc, note=d["error"] or ""))
    for l in lem:
        nobs += 1
        if l["ok"]:
            ndis += 1
            backends[l["backend"]] = backends.get(l["backend"], 0) + 1
        else:
            errors.append("lemma %s: %s" % (l["name"], l["detail"]))
    for x in errors:
        reach.append(("front end / lemmas", x))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    rfile = os.path.join(ROOT, "evidence", "%s.replay.txt" % pid)
    viol = 0
    line = None
    if rep["fails"]:
        viol = len(rep["fails"])
        with open(rfile, "w") as f:
            f.write("property %s: failing input on the real code\n\n" % pid)
            for x in rep["fails"][:200]:
                f.write(x + "\n")
            f.write("\nreproduce: %s\n" % rep["how"])
            f.write("\nobligations that fail on this source:\n")
            for u, o in failed[:60]:
                f.write("%s | %s | %s | %s\n" % (u, o["name"], o["where"], o["detail"][:600]))
        line = "VIOLATION property=%s replay=%s" % (pid, rfile)
    elif failed:
        viol = len(failed)
        with open(rfile, "w") as f:
            f.write("property %s: obligations not discharged on this source; the replay search (%d executions) found no failing input\n\n" % (pid, rep["evaluations"]))
            for u, o in failed[:100]:
                f.write("obligation: %s\n unit: %s\n where: %s\n solver: %s: %s\n\n" % (o["name"], u, o["where"], o["backend"], o["detail"]))
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rfile)
    samples = []
    for d in results[:400]:
        for o in d["obs"]:
            if prop.wants(d["unit"], o["cat"]) and o["name"].startswith("[") and len(samples) < 12 and (not samples or samples[-1].split(" | ")[0] != d["unit"]):
                samples.append("%s | %s | %s" % (d["unit"], o["name"], o["backend"]))
    proved_units = [d["unit"] for d in results if not d["error"] and all(o["ok"] for o in d["obs"] if prop.wants(d["unit"], o["cat"]))]
    ev = dict(property=pid, tier=tier, seed=seed, level=prop.level, wall_s=round(time.time() - t0, 2), violations=viol,
        assumptions=prop.assumptions + units.COMMON_ASSUMPTIONS + ["external procedure by assumed contract: " + x for x in sorted(ext)] + sorted("engine note: " + n for n in notes),
        coverage=dict(explanation=units.NOTES.get(pid, units.NOTE), obligations=nobs, discharged=ndis,
            checker_cmd="python3-vt -m fzv.check %s" % pid,
            trusted_base=units.TRUSTED,
            back_ends=backends, solver_seconds=round(solver, 2),
            units=len(results), units_fully_discharged=len(proved_units),
            functions_under_contract=contracts,
            functions_verified_through_their_body=sorted(inl),
            bounded_units=dict(label="bounded, not counted as proved", **bnd),
            lemmas=[dict(name=l["name"], ok=l["ok"], backend=l["backend"]) for l in lem],
            outside_reach=[dict(unit=u, why=w) for u, w in reach],
            bounded_replay=dict(label="bounded, not counted as proved", executions=rep["evaluations"], bound=rep["bound"], failures=len(rep["fails"]), note=rep["note"] or (rep["error"] or "")[:500]),
            samples=samples))
    with open(os.path.join(ROOT, "evidence", "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d/%d obligations discharged in %d units (%s), %d failed, %d outside reach; replay: %d executions, %d failures; %.0f s" % (
        pid, ndis, nobs, len(results), ", ".join("%s %d" % x for x in sorted(backends.items())), len(failed), len(reach), rep["evaluations"], len(rep["fails"]), time.time() - t0))
    for u, w in reach[:20]:
        print("  bounded only (outside the verifier's reach): %s: %s" % (u, w[:300]))
    for u, o in failed[:20]:
        print("  failed obligation: %s: %s at %s" % (u, o["name"], o["where"][:200]))
    for x in rep["fails"][:10]:
        print("  failing input: " + x)
    if rep["error"]:
        print("  replay not available: " + rep["error"][:1500])
    for kf in units.known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, kf))
    if line:
        print(line)
        return 1
    if rep["error"] and (reach or not results):
        print("check could not decide: replay not available (%s)" % rep["error"])
        return 2
    return 0

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
