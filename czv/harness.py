"""Symbolic initial states and postcondition checks shared by the specifications."""
import itertools
import z3
from . import eng
from .eng import *

class Ctx:
    """one path of one unit"""
    def __init__(s, E):
        s.E = E
        s.snap = None
        s.file = None
    # ------------------------------------------------ objects
    def ext(s, name, length, ety, ncoord=1):
        return s.E.region(name, ncoord, length, ety, "ext")
    def realarr(s, name, n):
        rid = s.ext(name, n, "double")
        return Ptr(rid, (), (0,), "R", "double")
    def intarr(s, name, n):
        rid = s.ext(name, n, "int")
        return Ptr(rid, (), (0,), "R", "int")
    def out(s, ety="double", name="out"):
        rid = s.ext(name, 1, ety)
        return Ptr(rid, (), (0,), "R", ety)
    def N(s, name="N", lo=0):
        n = z3.Int(name)
        s.E.assume(n >= lo)
        return n
    def real(s, name):
        return z3.Real(name)
    def sunctx(s):
        rid = s.ext("sunctx", 1, "struct _SUNContext")
        return Ptr(rid, (), (0,), "R", "struct _SUNContext")
    def struct(s, name, ty, fields=None):
        """one object of a struct type; its fields are given or unmodelled"""
        rid = s.ext(name, 1, ty)
        p = Ptr(rid, (), (0,), "R", ty)
        for f, v in (fields or {}).items():
            s.set(p, f, v)
        return p
    def ftype(s, p, f):
        for a, t in s.E.P.records[s.E.P.resolve(p.ety)]:
            if a == f:
                return t
        raise Unsupported("no field %s in %s" % (f, p.ety))
    def set(s, p, f, v):
        m = s.E.member(p, f, s.ftype(p, f))
        s.E.st.mem[(m.rid, m.field)] = s.E.arr(m).write(Layer((), True, m.coords, v))
    def get(s, p, f):
        m = s.E.member(p, f, s.ftype(p, f))
        return s.E.read_arr(s.E.arr(m), m.coords, s.E.P.kind(m.ety) == "ptr")
    def fieldarr(s, p, f):
        """pointer to the first element of an array field"""
        ety, ln = s.E.P.elem(s.ftype(p, f))
        return Ptr(p.rid, p.field + (f,), p.coords + (0,), ln, ety)
    def at(s, p, i):
        return s.E.padd(p, i)
    def read(s, p, i=0):
        q = s.E.padd(p, i) if not (isinstance(i, int) and i == 0) else p
        return s.E.read_arr(s.E.arr(q), q.coords, s.E.P.kind(q.ety) == "ptr")
    # ------------------------------------------------ serial vectors
    def template(s):
        """the operation table, as the constructor in the source fills it"""
        E = s.E
        if getattr(s, "_tmpl", None) is None:
            mmf = eng.MALLOC_MAY_FAIL[0]
            eng.MALLOC_MAY_FAIL[0] = False
            co = E.collect
            E.collect = False
            try:
                s._ctx = s.sunctx()
                v = s.fn("N_VNewEmpty_Serial", [z3.IntVal(1), s._ctx])
                if getattr(s, "fused", None):
                    s.fn("N_VEnableFusedOps_Serial", [v, 1])
                    if s.fused != "all":
                        ops = s.get(v, "ops")
                        for f, _ in E.P.records["struct _generic_N_Vector_Ops"]:
                            if f in FUSED and f not in s.fused:
                                s.set(ops, f, NULL)
            finally:
                eng.MALLOC_MAY_FAIL[0] = mmf
                E.collect = co
            s._tmpl = s.get(v, "ops")
        return s._tmpl
    def vec(s, name, n, data=None, own=1):
        E = s.E
        ops = s.template()
        d = data or s.realarr(name, n)
        c = s.struct(name + "_content", "struct _N_VectorContent_Serial", dict(length=n, own_data=own, data=d))
        v = s.struct(name + "_vec", "struct _generic_N_Vector", dict(content=c, ops=ops, sunctx=s._ctx))
        v_data[v.rid] = d.rid
        return v
    def fam(s, name, lens, n):
        """array (of arrays ...) of serial vectors: lens gives the array lengths, outermost first"""
        E = s.E
        ops = s.template()
        ctx = s._ctx
        m = len(lens)
        data = E.region(name, m + 1, n, "double", "ext")
        cont = E.region(name + "_content", m, lens[-1], "struct _N_VectorContent_Serial", "ext")
        vecs = E.region(name + "_vec", m, lens[-1], "struct _generic_N_Vector", "ext")
        E.setbase(vecs, ("content",), lambda c: Ptr(cont, (), tuple(c), "R", "struct _N_VectorContent_Serial"))
        E.setbase(vecs, ("ops",), lambda c: ops)
        E.setbase(vecs, ("sunctx",), lambda c: ctx)
        E.setbase(cont, ("data",), lambda c: Ptr(data, (), tuple(c) + (0,), "R", "double"))
        E.setbase(cont, ("length",), lambda c: n)
        E.setbase(cont, ("own_data",), lambda c: 1)
        for r_ in (data, cont, vecs):
            E.regions[r_].dims = list(lens)
        # the arrays of pointers
        last = E.region(name + "_arr", m, lens[-1], "struct _generic_N_Vector *", "ext")
        E.setbase(last, (), lambda c: Ptr(vecs, (), tuple(c), "R", "struct _generic_N_Vector"))
        top = last
        if m == 2:
            top = E.region(name + "_arr2", 1, lens[0], "struct _generic_N_Vector * *", "ext")
            E.setbase(top, (), lambda c: Ptr(last, (), tuple(c) + (0,), "R", "struct _generic_N_Vector *"))
        elif m > 2:
            raise Unsupported("family depth")
        p = Ptr(top, (), (0,), "R", E.regions[top].ety)
        f_data[top] = data
        f_vecs[vecs] = data
        return p
    def vdata(s, v):
        d = s.get(s.get(v, "content"), "data")
        return d
    def fdata(s, p):
        return f_data[p.rid]
    def el(s, v, i, snap=True):
        """element of a vector, in the initial state"""
        return s.cell(v_data[v.rid], (i,), snap)
    def fel(s, p, ii, snap=True):
        return s.cell(f_data[p.rid], tuple(ii), snap)
    def cell(s, rid, coords, snap=True):
        E = s.E
        R = E.regions[rid]
        p = Ptr(rid, (), tuple(coords), "R", R.ety)
        if not snap:
            return E.read_arr(E.arr(p), p.coords, False)
        E.arr(p)
        a = (s.snap or E.st.mem).get((rid, ()))
        if a is None:
            a = E.st.mem[(rid, ())]
            a = Arr(a.base)
        return E.read_arr(a, p.coords, False)
    # ------------------------------------------------ calling
    def fn(s, name, args, file=None):
        E = s.E
        d = E.P.find_any(name) if file is None else E.P.find(name, file)
        if d is None:
            raise Unsupported("function %s does not exist" % name)
        return E.enter(d, args)
    def start(s):
        """end of set-up: everything that exists now is framed"""
        E = s.E
        s.snap = dict(E.st.mem)
        s.mark = eng.fresh_id()
        s.npc = len(E.st.pc)
    # ------------------------------------------------ postconditions
    def ob(s, name, goal, cat="post", facts=(), timeout=8000):
        return s.E.ob(name, cat, goal, facts, timeout)
    def same(s, name, got, want, cat="post", facts=()):
        E = s.E
        if isnum(got) and isnum(want):
            return s.ob(name, eqv(got, want), cat, facts)
        if isinstance(got, Ptr) and isinstance(want, Ptr):
            return s.ob(name, E.compare("==", got, want), cat, facts)
        if isinstance(got, FnVal) and isinstance(want, FnVal):
            return s.ob(name, got.name == want.name, cat, facts)
        return s.ob(name, got is want, cat, facts)
    def frame(s, expected=None, ignore=()):
        """every cell that existed before has its old value, except those in expected:
        {rid or (rid, field): function of coords giving the expected final value (or None: unconstrained)}"""
        E = s.E
        exp = {}
        for kx, f in (expected or {}).items():
            exp[kx if isinstance(kx, tuple) else (kx, ())] = f
        for key in list(E.st.mem):
            rid, field = key
            R = E.regions[rid]
            if R.birth >= s.mark or R.kind in ("local", "global"):
                continue
            a = E.st.mem[key]
            o = s.snap.get(key)
            if o is None:
                o = Arr(a.base)
            if key in exp and exp[key] is None or key in ignore or rid in ignore:
                continue
            if a.layers == o.layers and key not in exp:
                continue
            nm = R.name + ("." + ".".join(field) if field else "")
            ncell = len(o.layers[-1].coords) if o.layers else (len(a.layers[-1].coords) if a.layers else R.ncoord)
            cs = tuple(E.fint("c") for _ in range(ncell))
            facts = [cs[R.ncoord - 1] >= 0] if R.ncoord else []
            L = R.length(cs[:R.ncoord - 1])
            if L is not None:
                facts.append(cs[R.ncoord - 1] < zi(L))
            for q in range(R.ncoord - 1):
                facts.append(cs[q] >= 0)
                if R.dims:
                    facts.append(cs[q] < zi(R.dims[q]))
            sv = E.st
            E.st = sv.copy()
            E.st.pc += facts
            nf = E.nofork
            try:
                kd = None
                def both():
                    got = E.read_arr(a, cs, True) if False else E.read_arr(a, cs, False)
                    if key in exp:
                        want = exp[key](cs)
                    else:
                        want = E.read_arr(o, cs, False)
                    s.same("%s holds %s" % (nm, "its specified value" if key in exp else "its old value"), got, want, "post" if key in exp else "frame")
                    return True
                E.explore(both)
            finally:
                E.st = sv
        for rid in E.st.dead:
            R = E.regions[rid]
            if R.birth < s.mark and R.kind == "ext":
                s.ob("%s is not freed" % R.name, False, "frame")

v_data, f_data, f_vecs = {}, {}, {}
FUSED = {"nvlinearcombination", "nvscaleaddmulti", "nvdotprodmulti", "nvlinearsumvectorarray", "nvscalevectorarray", "nvconstvectorarray", "nvwrmsnormvectorarray",
    "nvwrmsnormmaskvectorarray", "nvscaleaddmultivectorarray", "nvlinearcombinationvectorarray", "nvdotprodmultilocal"}

def partitions(names):
    """all aliasing patterns of the named arguments: lists of representative indices"""
    out = []
    def go(i, rep):
        if i == len(names):
            out.append(tuple(rep))
            return
        for j in sorted(set(rep)) + [i]:
            go(i + 1, rep + [j])
    go(0, [])
    return out
