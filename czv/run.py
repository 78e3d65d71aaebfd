"""Runs one unit: every path of its body, from a fresh engine."""
import time
from . import eng, harness, contracts
from .eng import *

class Unit:
    def __init__(s, id, files, body, contracts=(), bounded=None):
        s.id, s.files, s.body, s.bounded, s.contracts = id, files, body, bounded, contracts

_PROG = {}
def program(files):
    k = tuple(files)
    if k not in _PROG:
        _PROG[k] = Program(k)
    return _PROG[k]

def run(u, deadline, allowed=None):
    t0 = time.time()
    harness.v_data.clear()
    harness.f_data.clear()
    d = dict(unit=u.id, obs=[], error=None, stats={}, inlined=[], contracts=[], notes=[], paths=0)
    E = None
    try:
        P = program(u.files)
        if P.errors:
            raise Unsupported("front end: " + "; ".join(P.errors))
        E = Engine(P, deadline)
        E.contracts = {k: contracts.CONTRACTS[k] for k in u.contracts if allowed is None or k in allowed}
        def body():
            E.ghosts = []
            E.frames = []
            E.abstract = {}
            E.loopspecs = {}
            cx = harness.Ctx(E)
            u.body(cx)
            return True
        rs = E.explore(body)
        d["paths"] = len(rs)
        if not rs:
            d["error"] = "no feasible path"
    except Unsupported as x:
        d["error"] = "unsupported: %s" % x
    except Deadline:
        d["error"] = "out of time"
    except RecursionError:
        d["error"] = "internal: recursion"
    if E is not None:
        d["obs"] = [dict(name=o.name, cat=o.cat, ok=o.ok, detail=o.detail[:2000], where=o.where, imprecise=o.imprecise, backend=o.backend) for o in E.obs]
        d["stats"] = E.stats
        d["inlined"] = sorted(E.inlined)
        d["contracts"] = sorted(E.contracts_used)
        d["notes"] = sorted(E.notes)
    d["wall"] = time.time() - t0
    return d
