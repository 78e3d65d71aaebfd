"""Contracts of internal procedures.  Each one is verified against the body of the procedure on every run
(verify_contracts); one that no longer holds or whose procedure is gone is dropped, and its callers are
then checked against the body itself."""
import z3
from .core import *
from .interp import *
from .fparse import *

class Contract:
    def __init__(s, qual, applicable, apply, verify, text):
        s.qual, s._applicable, s._apply, s.verify, s.text = qual, applicable, apply, verify, text
    def applicable(s, ip, p, bound):
        return s._applicable(ip, p, bound)
    def apply(s, ip, p, bound):
        return s._apply(ip, p, bound)

def comp(ip, ref, n):
    return ip.read(ref.f(n))

# ---------------------------------------------------------------- capacity
def grow(ip, ref, head, sizef, arrf, n, fresh_arr):
    """effect of the capacity contracts: room for n more elements; content unchanged, new cells are unset"""
    e = ip.e
    hd, S = comp(ip, ref, head).t, comp(ip, ref, sizef).t
    arr = comp(ip, ref, arrf)
    if isinstance(arr, Unalloc):
        S2 = e.fresh("S")
        e.add(S2 >= 1, S2 - hd + 1 >= n)
        new = fresh_arr(S2)
    else:
        S2 = e.fresh("S")
        e.add(S2 >= S, S2 - hd + 1 >= n)
        new = Arr(e, arr.elem, [(arr.dims[0][0], S2)], arr.layers, arr.src)
        new = fresh_arr(S2, new, S)
    ip.write(ref.f(sizef), Sc("integer", S2))
    ip.write(ref.f(arrf), new)

def bound_ref(bound, n):
    a = bound.get(n)
    return a.ref if a is not None else None

def app_alloc(ip, p, bound):
    if len(p.args) != 2 or len(bound) != 2:
        return False
    r = bound_ref(bound, p.args[0])
    return r is not None

def c_alloc_storage(ip, p, bound):
    e = ip.e
    n = bound[p.args[1]].val().t
    r = bound[p.args[0]].ref
    def fa(S2, old=None, S=None):
        if old is None:
            z = Sc("integer", iv(0))
            return Arr.base(e, ("integer", None), [S2], lambda idx: z)
        return old.layer(("zerofrom", norm(S + 1))) if not getattr(ip.scene, "zero_above", False) else old
    grow(ip, r, "head", "storage_size", "storage", n, fa)

def c_alloc_varis(ip, p, bound):
    e = ip.e
    n = bound[p.args[1]].val().t
    r = bound[p.args[0]].ref
    def fa(S2, old=None, S=None):
        if old is None:
            return Arr.base(e, ("type", "vari"), [S2], lambda idx: ip.scene.node(idx[0]))
        return old
    grow(ip, r, "head", "n_varis", "varis", n, fa)

def v_capacity(which):
    """body against contract: any head, any size, any content"""
    def verify(P, mk):
        obs = []
        for alloc in (False, True):
            e, ip = mk()
            H, S, n = e.fresh("H"), e.fresh("S"), e.fresh("n")
            f = e.freshfn("content", I, I)
            g = e.freshfn("chain", I, I)
            vm = P.modules["fazang_vari_mod"]
            ip.init_globals()
            cs = Ref(ip.global_cell(vm, "callstack"))
            if which == "storage":
                me, hf, sf, af = cs.f("stack"), "head", "storage_size", "storage"
                content = lambda k: Sc("integer", f(k))
                elem = ("integer", None)
            else:
                me, hf, sf, af = cs, "head", "n_varis", "varis"
                content = lambda k: Struct("vari", {"i": Sc("integer", f(k)), "chain": SymProc(g(k))})
                elem = ("type", "vari")
            e.add(H >= 1, n >= 0, H <= S + 1)
            if alloc:
                e.add(S >= 1)
                ip.write(me.f(hf), Sc("integer", H))
                ip.write(me.f(sf), Sc("integer", S))
                ip.write(me.f(af), Arr.base(e, elem, [S], lambda idx: content(idx[0])))
            else:
                e.add(H == 1, S == 0)
            q = P.find_proc(QUAL["storage" if which == "storage" else "varis"])
            ip.verifying = q.qual
            s0 = dict(e.store)
            def run():
                e.where.append(q.qual)
                ip.run_body(q, {q.args[0]: Actual(ip, ref=me), q.args[1]: Actual(ip, v=Sc("integer", n))})
                S2 = ip.read(me.f(sf)).t
                arr = ip.read(me.f(af))
                if not isinstance(arr, Arr):
                    e.fail("array is allocated afterwards", "")
                    return
                e.goal(arr.dims[0][1] == S2, "recorded size is the size of the array")
                e.goal(arr.dims[0][0] == 1, "lower bound 1")
                e.goal(z3.And(S2 >= S, S2 - H + 1 >= n), "room for n more")
                e.goal(ip.read(me.f(hf)).t == H, "head unchanged")
                k = e.fresh("k")
                e.add(k >= 1, k <= S2)
                got = arr.get((k,))
                if e.decide(k <= S):
                    e.goal(value_eq(e, got, content(k)), "content kept")
                elif which == "storage":
                    e.goal(value_eq(e, got, Sc("integer", iv(0))), "new cells are zero")
                for rt, v in e.store.items():
                    if rt in s0 and rt != me.root and s0[rt] is not v and (rt in ip.globals.values()):
                        nm = [k for k, c in ip.globals.items() if c == rt]
                        if not isinstance(s0[rt], Unalloc):
                            e.fail("writes " + str(nm), "")
            outs = e.explore(run, q.qual)
            for o in outs:
                if o["stop"] is not None:
                    e.obs.append(Ob("no stop", "post", False, "error stop at line %s" % o["stop"], q.qual, "-", 0))
            obs.append((e, ip))
        return obs
    return verify

def value_eq(e, a, b):
    from .loops import value_equal
    return value_equal(e, a, b)

QUAL = {"storage": "fazang_tape_mod::alloc_storage", "varis": "fazang_vari_mod::alloc_vari_stack_n"}

CONTRACTS = {
    QUAL["storage"]: Contract(QUAL["storage"], app_alloc, c_alloc_storage, v_capacity("storage"),
        "requires 1<=head<=size+1; ensures size'-head+1>=n, size'>=size, content of 1..size kept, new cells zero, nothing else changes"),
    QUAL["varis"]: Contract(QUAL["varis"], app_alloc, c_alloc_varis, v_capacity("varis"),
        "requires 1<=head<=n_varis+1; ensures n_varis'-head+1>=n, n_varis'>=n_varis, content of 1..n_varis kept, nothing else changes"),
}

def install(ip, names=None):
    ip.contracts = {q: c for q, c in CONTRACTS.items() if names is None or q in names}
