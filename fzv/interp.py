"""Symbolic execution of the Fortran AST (one procedure at a time, callees through contracts)."""
import z3
from fractions import Fraction
from .fparse import *
from .core import *
from . import intrin

class ReturnEx(Exception):
    pass
class ExitEx(Exception):
    def __init__(s, name): s.name = name
class CycleEx(Exception):
    def __init__(s, name): s.name = name
class GotoEx(Exception):
    def __init__(s, label): s.label = label

import math
_MATH = None
def literal(txt):
    """a long decimal literal whose binary64 value is that of a common mathematical constant denotes that constant"""
    global _MATH
    if len([c for c in str(txt).lower().split("e")[0] if c.isdigit()]) >= 15:
        if _MATH is None:
            l2, lp = app("log", rv(2)), app("log", PI)
            _MATH = [(math.pi, PI), (math.pi / 2, PI / 2), (math.pi / 4, PI / 4), (2 * math.pi, 2 * PI), (math.sqrt(math.pi), app("sqrt", PI)),
                     (2 / math.sqrt(math.pi), 2 / app("sqrt", PI)), (math.log(2), l2), (math.log(math.pi), lp), (math.log(2 * math.pi), l2 + lp),
                     (0.5 * math.log(2 * math.pi), (l2 + lp) / 2), (math.sqrt(2), app("sqrt", rv(2))), (math.log(10), app("log", rv(10))), (math.e, app("exp", rv(1))),
                     (1 / math.sqrt(2 * math.pi), 1 / app("sqrt", 2 * PI)), (math.sqrt(2 * math.pi), app("sqrt", 2 * PI))]
        try:
            f = float(str(txt))
        except ValueError:
            return rv(txt)
        for v, t in _MATH:
            if abs(abs(f) - v) <= 2 ** -52 * v:
                return t if f > 0 else -t
    return rv(txt)

class Frame:
    def __init__(self, proc, module):
        self.proc, self.module = proc, module
        self.vars = {}      # name -> VarB
        self.host = None

class VarB:
    __slots__ = ("ref", "decl", "ptr", "assoc_lb")
    def __init__(s, ref, decl, ptr=False):
        s.ref, s.decl, s.ptr = ref, decl, ptr

class Actual:
    __slots__ = ("ip", "ref", "_v", "proc")
    def __init__(s, ip, ref=None, v=None, proc=None):
        s.ip, s.ref, s._v, s.proc = ip, ref, v, proc
    def val(s):
        if s._v is None:
            if s.proc is not None:
                return s.proc
            s._v = s.ip.read(s.ref)
        return s._v

class Interp:
    def __init__(self, prog, eng):
        self.P, self.e = prog, eng
        self.globals = {}
        self.params = {}
        self.contracts = {}
        self.verifying = None
        self.used_contracts = set()
        self.inlined = set()
        self.frames = []
        self.ext = {}           # external procedures with assumed contracts
        self.ext_used = set()
        self.depth = 0
        self.scene = None
        self.arith_symbolic = set()
        self.extra_generic = {}
        self.exp_hook = None

    # ------------------------------------------------------------------ types
    def find_type(self, name, module):
        es = self.P.symbols(module).get(name, []) if module else []
        for x in es:
            if x.kind == "type":
                return x.obj
        for m in self.P.modules.values():
            if name in m.types:
                return m.types[name]
        return None

    def is_ext_of(self, tn, parent):
        while tn:
            if tn == parent:
                return True
            d = self.find_type(tn, None)
            tn = d.parent if d else None
        return False

    def all_comps(self, tn):
        d = self.find_type(tn, None)
        if d is None:
            return []
        out = self.all_comps(d.parent) if d.parent else []
        return out + [d.comps[c] for c in d.order]

    def binding(self, tn, name):
        """('proc', info, dtype) or ('generic', [names], dtype) or None"""
        t = tn
        while t:
            d = self.find_type(t, None)
            if d is None:
                return None
            if name in d.generics:
                return ("generic", d.generics[name], d)
            if name in d.bind:
                return ("proc", d.bind[name], d)
            t = d.parent
        return None

    def elem_of(self, ts):
        if ts[0] == "type":
            return ("type", ts[1])
        return (ts[0], None)

    def default_value(self, decl, module, frame=None, dims=None):
        """value of a freshly declared entity"""
        ts = decl.ts
        if "pointer" in decl.attrs:
            if decl.init is not None:
                if decl.init[0] == "ref":   # null()
                    return NULL
                return self.ptr_init(decl.init, module)
            return UNDEF
        if ts[0] == "procedure":
            return UNDEF
        rank = len(decl.dims) if decl.dims is not None else 0
        if "allocatable" in decl.attrs:
            return Unalloc(self.elem_of(ts), rank)
        if rank:
            if dims is None:
                dims = self.in_frame(frame or Frame(None, module), lambda: self.eval_dims(decl.dims, frame))
            if decl.init is not None:
                v = self.in_frame(frame or Frame(None, module), lambda: self.ev(decl.init))
                return self.broadcast(v, dims, self.elem_of(ts))
            el = self.elem_of(ts)
            dv = self.default_scalar(ts, module)
            return Arr.base(self.e, el, [n for _, n in dims], lambda idx, dv=dv: dv, [l for l, _ in dims])
        if decl.init is not None:
            v = self.in_frame(frame or Frame(None, module), lambda: self.ev(decl.init))
            return self.convert(v, ts)
        return self.default_scalar(ts, module)

    def ptr_init(self, e, module):
        p = self.lookup_proc(e[1], Frame(None, module))
        return ProcV(p) if p else UNDEF

    def default_scalar(self, ts, module):
        if ts[0] == "type" and ts[1] != "*":
            d = self.find_type(ts[1], module)
            if d is None:
                return Struct(ts[1], {})     # opaque external type
            f = {}
            for c in self.all_comps(ts[1]):
                f[c.name] = self.default_value(c, d.module)
            return Struct(ts[1], f)
        return Undef(ts[0])

    def broadcast(self, v, dims, elem):
        if isinstance(v, Arr):
            return v.withlb([l for l, _ in dims])
        return Arr.base(self.e, elem, [n for _, n in dims], lambda idx: v, [l for l, _ in dims])

    def convert(self, v, ts):
        if isinstance(v, Sc):
            if ts[0] == "real" and v.typ == "integer":
                return Sc("real", z3.ToReal(v.t))
            if ts[0] == "integer" and v.typ == "real":
                return Sc("integer", trunc(v.t))
        return v

    # ------------------------------------------------------------------ globals
    def global_cell(self, module, name):
        k = (module.name, name)
        if k not in self.globals:
            self.globals[k] = self.e.cell(self.default_value(module.decls[name], module))
        elif self.globals[k] not in self.e.store:
            self.e.store[self.globals[k]] = self.default_value(module.decls[name], module)
        return self.globals[k]

    def init_globals(self):
        for m in self.P.modules.values():
            for n, d in m.decls.items():
                if "parameter" not in d.attrs and m.name.startswith("fazang"):
                    self.global_cell(m, n)

    def param(self, ent):
        k = (ent.module.name, ent.name)
        if k not in self.params:
            d = ent.obj
            v = self.in_frame(Frame(None, ent.module), lambda: self.ev(d.init))
            v = self.convert(v, d.ts)
            if isinstance(v, Sc) and v.typ == "real" and d.init[0] == "real":
                nv = named_constant(d.init)
                if nv is not None:
                    v = Sc("real", nv)
                    self.e.notes.add("literal %s treated as the exact constant" % d.init[2])
            if d.dims is not None and isinstance(v, Arr):
                pass
            self.params[k] = v
        return self.params[k]

    # ------------------------------------------------------------------ names
    @property
    def fr(self):
        return self.frames[-1]

    def in_frame(self, f, fn):
        self.frames.append(f)
        try:
            return fn()
        finally:
            self.frames.pop()

    def lookup_var(self, name, fr=None):
        f = fr or self.fr
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            f = f.host
        return None

    def lookup_ents(self, name, fr=None):
        f = fr or self.fr
        out = []
        g = f
        while g is not None:
            p = g.proc
            if p is not None:
                if name in p.internal:
                    return [Entity("proc", p.internal[name], p.module, name)]
                if name in p.generics and p.generics[name]:
                    out.append(Entity("generic", p.generics[name], p.module, name))
                if name in p.interfaces:
                    out.append(Entity("iface", p.interfaces[name], p.module, name))
                if p.uses:
                    syms = {}
                    for u in p.uses:
                        self.P.import_use(syms, u)
                    out += syms.get(name, [])
                h = p.host
                while h is not None:
                    if name in h.internal:
                        out.append(Entity("proc", h.internal[name], h.module, name))
                    h = h.host
            g = g.host
        if f.module is not None:
            for x in self.P.symbols(f.module).get(name, []):
                if not any(y.obj is x.obj for y in out):
                    out.append(x)
        return out

    def lookup_proc(self, name, fr=None):
        for x in self.lookup_ents(name, fr):
            if x.kind == "proc":
                return x.obj
        return None

    # ------------------------------------------------------------------ store access
    def read(self, ref):
        v = self.e.store[ref.root]
        for s in ref.sels:
            v = self.sel(v, s)
        return v

    def sel(self, v, s):
        if isinstance(v, Ref):
            v = self.read(v)
        if isinstance(v, Unalloc):
            self.e.fail("access to an unallocated array", "", "bounds")
            raise Infeasible()
        if s[0] == "f":
            if isinstance(v, Struct):
                if s[1] not in v.f:
                    raise Unsupported("component %s of %s" % (s[1], v.tn))
                return v.f[s[1]]
            if isinstance(v, Arr):
                el = ("?", None)
                if v.elem[0] == "type":
                    for c in self.all_comps(v.elem[1]):
                        if c.name == s[1]:
                            el = self.elem_of(c.ts)
                return Arr.base(self.e, el, v.extents(), lambda idx: self.sel(v.get(idx), s), [l for l, _ in v.dims])
            raise Unsupported("component %s of %r" % (s[1], v))
        if s[0] == "i":
            return v.get(s[1])
        if s[0] == "s":
            return section(self.e, v, s[1])
        if s[0] == "rebase":
            return v.withlb([iv(1)] * v.rank) if isinstance(v, Arr) else v
        raise Unsupported("selector %r" % (s,))

    def write(self, ref, val):
        self.e.store[ref.root] = self.upd(self.e.store[ref.root], ref.sels, val)

    def upd(self, v, sels, val):
        if not sels:
            if isinstance(v, Arr) and not isinstance(val, (Arr, Unalloc)):
                return self.fill(v, val)
            return val
        s = sels[0]
        if isinstance(v, Ref):
            self.write(Ref(v.root, v.sels + tuple(sels)), val)
            return v
        if s[0] == "rebase":
            if isinstance(v, Arr):
                nv = self.upd(v, sels[1:], val)
                return nv.withlb([l for l, _ in v.dims]) if isinstance(nv, Arr) else nv
            return self.upd(v, sels[1:], val)
        if s[0] == "f":
            if isinstance(v, Arr):
                if len(sels) == 1 and isinstance(val, Arr):
                    old = v
                    return v.layer(("sec", lambda idx: idx, lambda idx: old.get(idx).with_(s[1], val.get(idx)), [("r", iv(1), n, iv(1)) for n in v.extents()]))
                raise Unsupported("assignment to a component of an array section")
            return v.with_(s[1], self.upd(v.f[s[1]], sels[1:], val))
        if s[0] == "i":
            if len(sels) == 1:
                return v.put(s[1], val)
            old = v.get(s[1])
            return v.put(s[1], self.upd(old, sels[1:], val))
        if s[0] == "s":
            if len(sels) >= 2 and sels[1][0] == "i" and isinstance(v, Arr) and all(x[0] in "ri" for x in s[1]):
                # one element of a section is one element of the array
                it = iter(sels[1][1])
                idx = tuple(x[1] if x[0] == "i" else norm(x[1] + (next(it) - 1) * x[3]) for x in s[1])
                return self.upd(v, (("i", idx),) + tuple(sels[2:]), val)
            old = section(self.e, v, s[1])
            if len(sels) == 1:
                new = val if isinstance(val, Arr) else self.fill(old, val)
            else:
                new = self.upd(old, sels[1:], val)
                if new is old:
                    return v
            return put_section(self.e, v, s[1], new)
        raise Unsupported("selector %r" % (s,))

    def fill(self, arr, val):
        return Arr.base(self.e, arr.elem, arr.extents(), lambda idx: val, [l for l, _ in arr.dims])

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        k = e[0]
        m = getattr(self, "ev_" + k, None)
        if m is None:
            raise Unsupported("expression " + k)
        return m(e)

    def ev_int(self, e):
        return Sc("integer", iv(e[1]))
    def ev_real(self, e):
        return Sc("real", literal(e[1]))
    def ev_log(self, e):
        return Sc("logical", z3.BoolVal(e[1]))
    def ev_str(self, e):
        return Sc("character", e[1])
    def ev_paren(self, e):
        return self.ev(e[1])

    def deref(self, v):
        while isinstance(v, Ref):
            v = self.read(v)
        return v

    def ev_name(self, e):
        n = e[1]
        vb = self.lookup_var(n)
        if vb is not None:
            v = self.read(vb.ref)
            v = self.deref(v)
            if isinstance(v, Undef):
                self.e.fail("use of undefined variable " + n, "", "bounds")
                raise Infeasible()
            return v
        ents = self.lookup_ents(n)
        for x in ents:
            if x.kind == "var":
                return self.deref(self.e.store[self.global_cell(x.module, n)])
            if x.kind == "param":
                return self.param(x)
        for x in ents:
            if x.kind == "proc":
                return ProcV(x.obj)
        c = intrin.NAMED.get(n)
        if c is not None:
            return c
        raise Unsupported("name " + n)

    def ev_mem(self, e):
        r = self.try_lval(e)
        if r is not None:
            v = self.deref(self.read(r))
            if isinstance(v, Undef):
                self.e.fail("use of undefined component " + e[2], "", "bounds")
                raise Infeasible()
            if isinstance(v, BaseCell):
                return Sc("integer", v.t)
            return v
        b = self.ev(e[1])
        return self.sel(b, ("f", e[2]))

    def ev_ref(self, e):
        base, args = e[1], e[2]
        # designator (array element / section)?
        if self.is_array_designator(e):
            r = self.lval(e)
            v = self.deref(self.read(r))
            return self.as_value(v)
        if base[0] == "name":
            return self.call_name(base[1], args, want=True)
        if base[0] == "mem":
            return self.call_member(base, args, want=True)
        raise Unsupported("reference")

    def as_value(self, v):
        if isinstance(v, BaseCell):
            return Sc("integer", v.t)
        if isinstance(v, Undef):
            self.e.fail("use of an undefined value", "", "bounds")
            raise Infeasible()
        return v

    def ev_arr(self, e):
        parts = []
        for it in e[1]:
            if it[0] == "implied":
                parts.append(self.implied(it))
            else:
                parts.append(self.ev(it))
        if e[2] is not None:
            parts = [self.convert_any(p, e[2]) for p in parts]
        return array_cons(self.e, parts)

    def convert_any(self, v, ts):
        if isinstance(v, Arr) and v.elem[0] in ("integer", "real") and ts[0] != v.elem[0]:
            return Arr.base(self.e, (ts[0], None), v.extents(), lambda idx: self.convert(v.get(idx), ts))
        return self.convert(v, ts)

    def implied(self, it):
        _, items, var, lo, hi, st = it
        if len(items) != 1:
            raise Unsupported("implied do with several items")
        l, h = self.ev(lo).t, self.ev(hi).t
        s = self.ev(st).t if st is not None else iv(1)
        sc = cint(s)
        if sc not in (1, -1):
            raise Unsupported("implied do stride")
        n = norm(h - l + 1) if sc == 1 else norm(l - h + 1)
        n = norm(z3.If(n > 0, n, iv(0))) if not self.e.entails(n >= 0) else n
        fr, snap = self.fr, dict(self.e.store)
        def at(idx):
            return self.at_snapshot(snap, lambda: self.implied_item(fr, items[0], var, norm(l + sc * (idx[0] - 1))))
        at = self.memo_at(at)
        self.generic_check(n, lambda k: at((k,)))
        probe = self.probe_type(n, lambda k: at((k,)))
        return Arr.base(self.e, probe, [n], at)

    def implied_item(self, fr, item, var, i):
        f = Frame(fr.proc, fr.module)
        f.host = fr
        c = self.e.cell(Sc("integer", i))
        f.vars[var] = VarB(Ref(c), None)
        v = self.in_frame(f, lambda: self.ev(item))
        if isinstance(v, Arr):
            raise Unsupported("array item in implied do")
        return v

    def memo_at(self, fn):
        """element function evaluated once per index on each path"""
        self.ntok = getattr(self, "ntok", 0) + 1
        tok = self.ntok
        def get(idx):
            e = self.e
            key = (tok, tuple(norm(i).get_id() for i in idx))
            r = e.memo.get(key)
            if r is None:
                for i in idx:
                    _keep_terms.append(norm(i))
                r = fn(tuple(norm(i) for i in idx))
                e.memo[key] = r
            return r
        return get

    def at_snapshot(self, snap, fn):
        cur = self.e.store
        self.e.store = dict(snap)
        try:
            return fn()
        finally:
            self.e.store = cur

    def generic_check(self, n, fn):
        """evaluate fn at an arbitrary index 1..n so that its obligations are generated"""
        def run():
            k = self.e.fresh_index(n)
            return fn(k)
        depth = len(self.frames)
        self.e.explore(run, "generic element")
        del self.frames[depth:]

    def probe_type(self, n, fn):
        e = self.e
        res = []
        def run():
            k = e.fresh("k")
            e.add(k >= 1, k <= n)
            v = fn(k)
            res.append(elem_type(v))
            return None
        e.silent += 1
        depth = len(self.frames)
        try:
            e.explore(run, "probe")
        finally:
            e.silent -= 1
            del self.frames[depth:]
        return res[0] if res else ("real", None)

    def ev_un(self, e):
        op = e[1]
        v = self.ev(e[2])
        if involves_derived(v):
            return self.call_operator(op, [Actual(self, v=v)])
        return intrin.elementwise(self, lambda a: intrin.unop(self, op, a), [v])

    def ev_bin(self, e):
        op = e[1]
        if op in (".and.", ".or."):
            a = self.ev(e[2])
            if isinstance(a, Sc):
                # no short circuit in the standard, but evaluation of either operand may be skipped;
                # both are evaluated here so that all their obligations are generated
                b = self.ev(e[3])
                return intrin.elementwise(self, lambda x, y: Sc("logical", z3.And(x.t, y.t) if op == ".and." else z3.Or(x.t, y.t)), [a, b])
        a, b = self.actual(e[2]), self.actual(e[3])
        va, vb = a.val(), b.val()
        if involves_derived(va) or involves_derived(vb) or op in (".in.",):
            return self.call_operator(op, [a, b])
        return intrin.elementwise(self, lambda x, y: intrin.binop(self, op, x, y), [va, vb])

    # ------------------------------------------------------------------ designators
    def is_array_designator(self, e):
        """e = ('ref', base, args) denotes an element/section of a variable rather than a call"""
        base = e[1]
        if base[0] == "name":
            vb = self.lookup_var(base[1])
            if vb is not None:
                v = self.deref(self.read(vb.ref))
                return isinstance(v, (Arr, Unalloc))
            for x in self.lookup_ents(base[1]):
                if x.kind in ("var", "param"):
                    return True
            return False
        if base[0] == "mem":
            # component array or binding?
            t = self.static_type(base[1])
            if t is None:
                return False
            for c in self.all_comps(t):
                if c.name == base[2]:
                    return c.ts[0] != "procedure"
            return False
        return False

    def static_type(self, e):
        """derived type name of a designator expression"""
        r = self.try_lval(e)
        if r is None:
            v = self.ev(e)
        else:
            v = self.deref(self.read(r))
        return type_name(v)

    def try_lval(self, e):
        try:
            return self.lval(e)
        except NotDesignator:
            return None

    def lval(self, e, ptr=False):
        """reference denoted by a designator; pointers are followed unless ptr"""
        k = e[0]
        if k == "name":
            vb = self.lookup_var(e[1])
            if vb is not None:
                r = vb.ref
            else:
                r = None
                for x in self.lookup_ents(e[1]):
                    if x.kind == "var":
                        r = Ref(self.global_cell(x.module, e[1]))
                    elif x.kind == "param":
                        r = Ref(self.e.cell(self.param(x)))
                if r is None:
                    raise NotDesignator()
        elif k == "mem":
            b = self.lval(e[1])
            bv = self.read(b)
            tn = type_name(bv)
            if tn is not None and not any(c.name == e[2] for c in self.all_comps(tn)):
                raise NotDesignator()
            r = b.f(e[2])
        elif k == "ref":
            if not self.is_array_designator(e):
                raise NotDesignator()
            b = self.lval(e[1])
            arr = self.read(b)
            if isinstance(arr, Unalloc):
                self.e.fail("access to unallocated %s" % show(e[1]), "", "bounds")
                raise Infeasible()
            r = self.subscript(b, arr, e[2], e)
        else:
            raise NotDesignator()
        if not ptr:
            n = 0
            while True:
                v = self.read(r) if not (r.sels and r.sels[-1][0] in ("i",)) else self.peek(r)
                if isinstance(v, Ref):
                    r = v
                    continue
                break
        return r

    def peek(self, r):
        # reading an element only matters here when elements can be pointers, which Fortran excludes
        return None

    def subscript(self, ref, arr, args, e):
        eng = self.e
        if not isinstance(arr, Arr):
            raise Unsupported("subscript of non-array %s" % show(e))
        if len(args) != arr.rank:
            raise Unsupported("rank mismatch in %s" % show(e))
        specs, allidx = [], True
        for a, (lb, n) in zip(args, arr.dims):
            if a[0] == "slice":
                allidx = False
                st = self.ev(a[3]).t if a[3] is not None else iv(1)
                lo = self.ev(a[1]).t if a[1] is not None else lb
                hi = self.ev(a[2]).t if a[2] is not None else lb + n - 1
                stc = cint(st)
                off = norm(lo - lb + 1)
                if a[1] is None and a[2] is None and stc == 1:
                    specs.append(("r", iv(1), n, iv(1)))
                    continue
                if stc == 1:
                    cnt = norm(hi - lo + 1)
                    if not eng.entails(cnt >= 0):
                        if not eng.decide(cnt >= 0):
                            cnt = iv(0)
                elif stc == -1:
                    cnt = norm(lo - hi + 1)
                    if not eng.decide(cnt >= 0):
                        cnt = iv(0)
                else:
                    if not eng.entails(st >= 1):
                        raise Unsupported("section stride")
                    # count = floor((hi-lo)/st)+1 : characterised by inequalities
                    span = norm(hi - lo)
                    cnt = self.strided_count(span, st)
                last = norm(off + (cnt - 1) * st)
                eng.oblige(z3.Or(cnt <= 0, z3.And(off >= 1, off <= n, last >= 1, last <= n)),
                           "section bounds of %s" % show(e[1]), "bounds")
                specs.append(("r", off, cnt, st))
            else:
                v = self.ev(a)
                if isinstance(v, Arr):
                    allidx = False
                    specs.append(("v", v, lb))
                    self.generic_check(v.extents()[0], lambda k, v=v, lb=lb, n=n: eng.oblige(z3.And(v.get((k,)).t >= lb, v.get((k,)).t <= lb + n - 1), "vector subscript of %s" % show(e[1]), "bounds"))
                    continue
                t = norm(v.t - lb + 1)
                eng.oblige(z3.And(t >= 1, t <= n), "subscript of %s" % show(e[1]), "bounds")
                specs.append(("i", t))
        if allidx:
            return Ref(ref.root, ref.sels + (("i", tuple(s[1] for s in specs)),))
        return Ref(ref.root, ref.sels + (("s", tuple(specs)),))

    def strided_count(self, span, st):
        """floor(span/st)+1 for st>=1 (0 when span<0), as a term the solver can use"""
        e = self.e
        # try: span = st*q + c with 0<=c<st provable, q from polynomial factoring
        q = poly_div_hint(span, st)
        for cand in q:
            c = norm(span - cand * st)
            if e.entails(z3.And(c >= 0, c < st)):
                if e.entails(cand + 1 >= 0):
                    return norm(cand + 1)
        if e.decide(span < 0):
            return iv(0)
        k = e.fresh("cnt")
        e.add(k >= 1, (k - 1) * st <= span, span < k * st)
        return k

    # ------------------------------------------------------------------ actual arguments
    def actual(self, e):
        while e[0] == "paren":
            return Actual(self, v=self.ev(e[1]))
        if e[0] in ("name", "mem") or (e[0] == "ref"):
            if e[0] == "name":
                vb = self.lookup_var(e[1])
                if vb is not None and vb.decl is not None and vb.decl.ts[0] == "procedure":
                    return Actual(self, proc=self.read(vb.ref))
                if vb is None:
                    ents = self.lookup_ents(e[1])
                    pr = [x for x in ents if x.kind == "proc"]
                    if pr and not any(x.kind in ("var", "param") for x in ents):
                        return Actual(self, proc=ProcV(pr[0].obj))
            r = self.try_lval(e)
            if r is not None:
                return Actual(self, ref=r)
        return Actual(self, v=self.ev(e))

    def eval_args(self, args):
        pos, kw = [], {}
        for a in args:
            if a[0] == "kw":
                kw[a[1]] = self.actual(a[2])
            else:
                pos.append(self.actual(a))
        return pos, kw

    # ------------------------------------------------------------------ calls
    def call_operator(self, op, acts):
        name = "operator(%s)" % op
        cands = self.generic_procs(name)
        p, why = self.resolve(cands, acts, {})
        if p is None:
            raise Unsupported("no operator %s for %s" % (op, [describe(a.val()) for a in acts]))
        return self.call_proc(p, acts, {})

    def generic_procs(self, name, fr=None):
        out = []
        for x in self.lookup_ents(name, fr):
            if x.kind == "generic":
                for n in x.obj:
                    p = x.module.procs.get(n) or x.module.interfaces.get(n)
                    if p is None:
                        for y in self.P.symbols(x.module).get(n, []):
                            if y.kind == "proc":
                                p = y.obj
                    if p is not None and p not in out:
                        out.append(p)
            elif x.kind == "proc" and x.obj not in out:
                out.append(x.obj)
        return out

    def call_name(self, name, args, want):
        vb = self.lookup_var(name)
        pos, kw = self.eval_args(args)
        if vb is not None:
            pv = self.read(vb.ref)
            if isinstance(pv, Ref):
                pv = self.deref(pv)
            return self.call_procval(pv, pos, kw)
        ents = self.lookup_ents(name)
        cands = self.generic_procs(name)
        if cands:
            p, why = self.resolve(cands, pos, kw)
            if p is not None:
                return self.call_proc(p, pos, kw)
        if name in self.ext:
            self.ext_used.add(name)
            return self.ext[name](self, pos, kw)
        # structure constructor
        if any(x.kind == "type" for x in ents):
            return self.structure(name, pos, kw)
        f = intrin.TABLE.get(name)
        if f is not None:
            return f(self, pos, kw)
        raise Unsupported("call of %s(%s)" % (name, ", ".join(describe(a.val()) for a in pos)))

    def structure(self, name, pos, kw):
        comps = self.all_comps(name)
        d = self.find_type(name, None)
        v = self.default_scalar(("type", name), d.module)
        for c, a in zip(comps, pos):
            v = v.with_(c.name, self.convert(a.val(), c.ts))
        for n, a in kw.items():
            v = v.with_(n, a.val())
        return v

    def call_procval(self, pv, pos, kw):
        if isinstance(pv, ProcV):
            return self.call_proc(pv.p, pos, kw)
        if isinstance(pv, AbsProc):
            return pv.handler(self, pos, kw)
        if isinstance(pv, SymProc):
            if self.scene and self.scene.dispatch:
                return self.scene.dispatch(self, pv, pos)
            raise Unsupported("call through an unknown procedure pointer")
        if isinstance(pv, Undef) or pv is NULL or isinstance(pv, Null):
            self.e.fail("call through an undefined procedure pointer", "", "bounds")
            raise Infeasible()
        raise Unsupported("call of %r" % (pv,))

    def call_member(self, mem, args, want):
        """base%name(args): component procedure pointer or type-bound procedure"""
        base, name = mem[1], mem[2]
        act = self.actual(base)
        tn = type_name(act.val())
        if tn is None:
            raise Unsupported("member call on %s" % show(base))
        pos, kw = self.eval_args(args)
        for c in self.all_comps(tn):
            if c.name == name and c.ts[0] == "procedure":
                pv = self.sel(act.val(), ("f", name))
                if isinstance(pv, Ref):
                    pv = self.deref(pv)
                nopass = "nopass" in c.attrs
                return self.call_procval(pv, pos if nopass else [act] + pos, kw)
        b = self.binding(tn, name)
        if b is None:
            raise Unsupported("no member %s in type %s" % (name, tn))
        if b[0] == "proc":
            return self.call_bound(b[1], b[2], act, pos, kw)
        cands = []
        for n in b[1]:
            bb = self.binding(tn, n)
            if bb is None or bb[0] != "proc":
                continue
            p = self.bound_proc(bb[1], bb[2])
            if p is not None:
                cands.append((p, bb[1]))
        for p, info in cands:
            al = pos if info["nopass"] else [act] + pos
            if self.matches(p, al, kw, False):
                return self.call_proc(p, al, kw)
        for p, info in cands:
            al = pos if info["nopass"] else [act] + pos
            if self.matches(p, al, kw, True):
                return self.call_proc(p, al, kw)
        raise Unsupported("no specific procedure for %s%%%s" % (tn, name))

    def bound_proc(self, info, dt):
        for x in self.P.symbols(dt.module).get(info["target"], []):
            if x.kind == "proc":
                return x.obj
        return None

    def call_bound(self, info, dt, act, pos, kw):
        p = self.bound_proc(info, dt)
        if p is None:
            key = "%s%%%s" % (dt.name, info["target"])
            if key in self.ext:
                self.ext_used.add(key)
                return self.ext[key](self, [act] + pos, kw)
            raise Unsupported("binding %s of %s" % (info["target"], dt.name))
        if info["nopass"]:
            return self.call_proc(p, pos, kw)
        if info["passarg"]:
            kw = dict(kw)
            kw[info["passarg"]] = act
            return self.call_proc(p, pos, kw)
        return self.call_proc(p, [act] + pos, kw)

    def resolve(self, cands, pos, kw):
        for el in (False, True):
            for p in cands:
                if self.matches(p, pos, kw, el):
                    return p, None
        return None, "no match"

    def dummy_decl(self, p, n):
        return p.decls.get(n)

    def matches(self, p, pos, kw, elemental):
        if elemental and not p.elemental:
            return False
        if len(pos) + len(kw) > len(p.args):
            return False
        bound = dict(zip(p.args, pos))
        bound.update(kw)
        for n in p.args:
            d = self.dummy_decl(p, n)
            if n not in bound:
                if d is not None and "optional" in d.attrs:
                    continue
                return False
            a = bound[n]
            v = a.val()
            if d is None:
                return False
            if d.ts[0] == "procedure" or isinstance(v, (ProcV, AbsProc, SymProc)):
                if not (isinstance(v, (ProcV, AbsProc, SymProc))):
                    return False
                if d.ts[0] != "procedure":
                    return False
                if d.ts[1] and not self.proc_conforms(v, d.ts[1], p):
                    return False
                continue
            bt, tn, rk = vtype(v)
            dr = len(d.dims) if d.dims is not None else 0
            if rk != dr and not (elemental and dr == 0):
                return False
            if d.ts[0] == "type":
                if d.ts[1] == "*":
                    continue
                if bt != "type":
                    return False
                if d.ts[2]:
                    if not self.is_ext_of(tn, d.ts[1]):
                        return False
                elif tn != d.ts[1]:
                    return False
            elif bt != d.ts[0]:
                return False
            elif bt in ("real", "integer") and self.kind_tag(d.ts) == "single":
                return False
        return True

    def kind_tag(self, ts):
        k = ts[1]
        if ts[0] == "real" and k in (None, "real32", "c_float", "4"):
            return "single"
        return "ok"

    def proc_conforms(self, v, iface, p):
        """does procedure value v have the interface named iface (argument count and types)"""
        ents = [x for x in self.P.symbols(p.module).get(iface, []) if x.kind in ("iface", "proc")]
        if not ents:
            return True
        ip = ents[0].obj
        if isinstance(v, AbsProc):
            return getattr(v, "iface", None) in (None, iface)
        if isinstance(v, ProcV):
            q = v.p
            if len(q.args) != len(ip.args):
                return False
            for a, b in zip(q.args, ip.args):
                da, db = q.decls.get(a), ip.decls.get(b)
                if da and db and (da.ts[0] != db.ts[0] or (da.ts[0] == "type" and da.ts[1] != db.ts[1])):
                    return False
        return True

    def call_proc(self, p, pos, kw):
        e = self.e
        bound = dict(zip(p.args, pos))
        bound.update(kw)
        # elemental application over arrays
        if p.elemental:
            arrs = [(n, a) for n, a in bound.items() if a.proc is None and isinstance(a.val(), Arr) and not (p.decls.get(n) and p.decls[n].dims)]
            if arrs:
                c = self.contracts.get("elemental " + p.qual)
                if c is not None and c.applicable(self, p, bound):
                    self.used_contracts.add("elemental " + p.qual)
                    return c.apply(self, p, bound)
                return self.call_elemental(p, bound, arrs)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion in " + p.qual)
        e.where.append("%s:%d" % (p.name, p.line))
        try:
            c = self.contracts.get(p.qual)
            if c is not None and p.qual != self.verifying and c.applicable(self, p, bound):
                self.used_contracts.add(p.qual)
                return c.apply(self, p, bound)
            self.inlined.add(p.qual)
            return self.run_body(p, bound)
        finally:
            e.where.pop()
            self.depth -= 1

    def run_body(self, p, bound, frame_out=None):
        f = Frame(p, p.module)
        if p.host is not None:
            for g in reversed(self.frames):
                if g.proc is p.host:
                    f.host = g
                    break
        copies = []
        eng = self.e
        # bind dummies: first those without spec expressions
        order = sorted(p.args, key=lambda n: 0 if not (p.decls.get(n) and p.decls[n].dims) else 1)
        for n in order:
            d = p.decls.get(n)
            if d is None:
                raise Unsupported("undeclared dummy %s of %s" % (n, p.qual))
            if n not in bound:
                f.vars[n] = VarB(Ref(eng.cell(UNDEF)), d)
                f.vars[n].ref = Ref(eng.cell(NULL))
                continue
            a = bound[n]
            if a.proc is not None or d.ts[0] == "procedure":
                f.vars[n] = VarB(Ref(eng.cell(a.val())), d)
                continue
            if d.dims is not None and "pointer" not in d.attrs and "allocatable" not in d.attrs:
                explicit = not all(x[0] == "slice" and x[1] is None and x[2] is None for x in d.dims)
                v = a.val()
                if isinstance(v, Unalloc):
                    eng.fail("unallocated actual argument " + n, "", "bounds")
                    raise Infeasible()
                if explicit:
                    dims = self.in_frame(f, lambda: self.eval_dims(d.dims, f, v))
                    if len(dims) != v.rank:
                        raise Unsupported("sequence association")
                    for (lb, k), (_, m) in zip(dims[:-1], v.dims[:-1]):
                        eng.oblige(k == m, "shape of argument %s of %s" % (n, p.name), "shape")
                    if dims:
                        eng.oblige(dims[-1][1] <= v.dims[-1][1], "size of argument %s of %s" % (n, p.name), "shape")
                    nv = Arr(eng, v.elem, dims, v.layers, v.src)
                    c = eng.cell(nv)
                    f.vars[n] = VarB(Ref(c), d)
                    if a.ref is not None and not ("intent_in" in d.attrs):
                        copies.append((a.ref, c, dims, v))
                else:
                    lbs = []
                    for x in d.dims:
                        lbs.append(iv(1))
                    if a.ref is not None:
                        f.vars[n] = VarB(Ref(a.ref.root, a.ref.sels + (("rebase",),)), d)
                    else:
                        f.vars[n] = VarB(Ref(eng.cell(v.withlb(lbs))), d)
            else:
                if a.ref is not None and "value" not in d.attrs:
                    f.vars[n] = VarB(a.ref, d)
                else:
                    f.vars[n] = VarB(Ref(eng.cell(a.val())), d)
        # locals
        def setup():
            for n, d in p.decls.items():
                if n in f.vars:
                    continue
                if "parameter" in d.attrs:
                    f.vars[n] = VarB(Ref(eng.cell(self.convert(self.ev(d.init), d.ts))), d)
                    continue
                if "save" in d.attrs or (d.init is not None and "pointer" not in d.attrs):
                    raise Unsupported("saved local variable %s in %s" % (n, p.qual))
                f.vars[n] = VarB(Ref(eng.cell(self.default_value(d, p.module, f))), d)
            if p.kind == "function" and p.result not in f.vars:
                if p.rettype is None:
                    raise Unsupported("no type for result of " + p.qual)
                d = Decl(p.result, p.rettype, None, set(), None, False, p.line)
                f.vars[p.result] = VarB(Ref(eng.cell(self.default_value(d, p.module, f))), d)
        self.frames.append(f)
        nfr = len(self.frames)
        try:
            setup()
            try:
                self.exec_block(p.body)
            except ReturnEx:
                pass
            for ref, c, dims, v in copies:
                nv = eng.store[c]
                cur = self.read(ref)
                if nv.layers is not v.layers or True:
                    self.write(ref, Arr(eng, cur.elem, cur.dims, nv.layers, cur.src) if self.same_dims(dims, v.dims) else self.copy_back(cur, nv))
            res = None
            if p.kind == "function":
                res = self.read(f.vars[p.result].ref)
                if isinstance(res, Ref) and "pointer" in f.vars[p.result].decl.attrs:
                    pass
                elif isinstance(res, Undef):
                    eng.fail("function result of %s is undefined" % p.name, "", "bounds")
                    raise Infeasible()
                if isinstance(res, Arr):
                    res = res.withlb([iv(1)] * res.rank)
        finally:
            del self.frames[nfr - 1:]
        if frame_out is not None:
            frame_out.append(f)
        return res

    def same_dims(self, a, b):
        return all(same(x[1], y[1]) or self.e.entails(x[1] == y[1]) for x, y in zip(a, b))

    def copy_back(self, cur, nv):
        return put_section(self.e, cur, tuple(("r", iv(1), n, iv(1)) for _, n in nv.dims), nv)

    def eval_dims(self, dims, f, actual=None):
        out = []
        for x in dims:
            if x[0] == "slice":
                lo = self.ev(x[1]).t if x[1] is not None else iv(1)
                if x[2] is None:
                    if actual is not None:
                        out.append((lo, actual.dims[len(out)][1]))
                        continue
                    raise Unsupported("deferred shape")
                hi = self.ev(x[2]).t
                n = norm(hi - lo + 1)
            else:
                lo = iv(1)
                n = norm(self.ev(x).t)
            if not self.e.entails(n >= 0):
                if not self.e.decide(n >= 0):
                    n = iv(0)
            out.append((norm(lo), n))
        return out

    def call_elemental(self, p, bound, arrs):
        eng = self.e
        base = arrs[0][1].val()
        for n, a in arrs[1:]:
            v = a.val()
            if v.rank != base.rank:
                raise Unsupported("elemental rank")
            for (l1, n1), (l2, n2) in zip(base.dims, v.dims):
                eng.oblige(n1 == n2, "conformable arguments of elemental %s" % p.name, "shape")
        if p.kind == "function":
            d = p.decls.get(p.result)
            ts = d.ts if d is not None else p.rettype
            el = self.elem_of(ts)
        anames = {n for n, a in arrs}
        def actuals(idx):
            out = {}
            for n, a in bound.items():
                if n in anames:
                    if a.ref is not None:
                        out[n] = Actual(self, ref=Ref(a.ref.root, a.ref.sels + (("i", tuple(idx)),)))
                    else:
                        out[n] = Actual(self, v=a.val().get(idx))
                else:
                    out[n] = a
            return out
        if not p.impure and p.kind == "function":
            snap = dict(eng.store)
            frames = list(self.frames)
            memo = {}
            def at(idx):
                saved = self.frames
                self.frames = list(frames)
                try:
                    return self.at_snapshot(snap, lambda: self.call_proc_b(p, actuals(idx)))
                finally:
                    self.frames = saved
            at = self.memo_at(at)
            nc = cint(base.extents()[0]) if base.rank == 1 else None
            if nc is not None and nc <= 20:
                for q in range(nc):
                    at((iv(q + 1),))
            elif base.rank == 1:
                self.generic_check(base.extents()[0], lambda k: at((k,)))
            else:
                def run():
                    ks = []
                    for n in base.extents():
                        k = eng.fresh("k")
                        eng.add(k >= 1, k <= n)
                        ks.append(k)
                    return at(tuple(ks))
                eng.explore(run, "generic element")
            return Arr.base(eng, el, base.extents(), at)
        # impure: sequential application in array element order
        from . import loops
        return loops.elemental_seq(self, p, base, actuals, el if p.kind == "function" else None)

    def call_proc_b(self, p, bound):
        e = self.e
        self.depth += 1
        e.where.append("%s:%d" % (p.name, p.line))
        try:
            c = self.contracts.get(p.qual)
            if c is not None and p.qual != self.verifying and c.applicable(self, p, bound):
                self.used_contracts.add(p.qual)
                return c.apply(self, p, bound)
            self.inlined.add(p.qual)
            return self.run_body(p, bound)
        finally:
            e.where.pop()
            self.depth -= 1

    # ------------------------------------------------------------------ statements
    def exec_block(self, body):
        i = 0
        labels = None
        while i < len(body):
            try:
                self.exec(body[i])
                i += 1
            except GotoEx as g:
                j = None
                for q, s in enumerate(body):
                    if s.label == g.label:
                        j = q
                        break
                if j is None:
                    raise
                if j <= i:
                    raise Unsupported("backward goto")
                i = j

    def exec(self, s):
        self.e.tick()
        w = self.e.where
        if w:
            w[-1] = w[-1].split("@")[0] + "@%d" % s.line
        m = getattr(self, "x_" + s.k, None)
        if m is None:
            raise Unsupported("statement %s" % s.k)
        m(s)

    def x_unsupported(self, s):
        raise Unsupported("statement %r: %s" % (s.text, s.why))
    def x_continue(self, s):
        pass
    def x_io(self, s):
        pass
    def x_return(self, s):
        raise ReturnEx()
    def x_exit(self, s):
        raise ExitEx(s.name)
    def x_cycle(self, s):
        raise CycleEx(s.name)
    def x_goto(self, s):
        raise GotoEx(s.target)
    def x_errorstop(self, s):
        raise StopExec(s.line)
    def x_nullify(self, s):
        for a in s.args:
            self.ptr_write(a, NULL)

    def cond(self, e):
        v = self.ev(e)
        if not isinstance(v, Sc):
            raise Unsupported("array condition")
        return self.e.decide(v.t)

    def x_if(self, s):
        try:
            for c, b in s.arms:
                if c is None or self.cond(c):
                    self.exec_block(b)
                    return
        except ExitEx as x:
            if x.name is not None and x.name == s.name:
                return
            raise

    def x_selectcase(self, s):
        v = self.ev(s.e)
        default = None
        for sel, b in s.arms:
            if sel is None:
                default = b
                continue
            cs = []
            for it in sel:
                if it[0] == "slice":
                    c = []
                    if it[1] is not None:
                        c.append(v.t >= self.ev(it[1]).t)
                    if it[2] is not None:
                        c.append(v.t <= self.ev(it[2]).t)
                    cs.append(z3.And(c))
                else:
                    w = self.ev(it)
                    cs.append(v.t == w.t)
            if self.e.decide(z3.Or(cs)):
                self.exec_block(b)
                return
        if default is not None:
            self.exec_block(default)

    def x_selecttype(self, s):
        r = self.try_lval(s.sel)
        v = self.deref(self.read(r)) if r is not None else self.ev(s.sel)
        bt, tn, rk = vtype(v)
        chosen = None
        for kind, ts, b in s.arms:
            if kind == "type" and ((ts[0] != "type" and ts[0] == bt) or (ts[0] == "type" and tn == ts[1] and bt == "type")):
                chosen = b
                break
        if chosen is None:
            for kind, ts, b in s.arms:
                if kind == "class" and bt == "type" and self.is_ext_of(tn, ts[1]):
                    chosen = b
                    break
        if chosen is None:
            for kind, ts, b in s.arms:
                if kind == "default":
                    chosen = b
        if chosen is None:
            return
        if s.assoc:
            self.with_assoc([(s.assoc, r, v)], chosen)
        else:
            self.exec_block(chosen)

    def with_assoc(self, pairs, body):
        fr = self.fr
        saved = {}
        for n, r, v in pairs:
            saved[n] = fr.vars.get(n)
            fr.vars[n] = VarB(r if r is not None else Ref(self.e.cell(v)), None)
        try:
            self.exec_block(body)
        finally:
            for n, o in saved.items():
                if o is None:
                    fr.vars.pop(n, None)
                else:
                    fr.vars[n] = o

    def x_associate(self, s):
        pairs = []
        for n, ex in s.pairs:
            r = self.try_lval(ex)
            pairs.append((n, r, None if r is not None else self.ev(ex)))
        self.with_assoc(pairs, s.body)

    def x_block(self, s):
        fr = self.fr
        saved = {}
        for d in s.decls:
            saved[d.name] = fr.vars.get(d.name)
            fr.vars[d.name] = VarB(Ref(self.e.cell(self.default_value(d, fr.module, fr))), d)
        try:
            self.exec_block(s.body)
        finally:
            for n, o in saved.items():
                if o is None:
                    fr.vars.pop(n, None)
                else:
                    fr.vars[n] = o

    def x_call(self, s):
        base, args = s.e[1], s.e[2]
        if base[0] == "name":
            n = base[1]
            if n in intrin.SUBS and not self.generic_procs(n):
                intrin.SUBS[n](self, args)
                return
            self.call_name(n, args, want=False)
        else:
            self.call_member(base, args, want=False)

    def x_assign(self, s):
        lhs, rhs = s.lhs, s.rhs
        v = self.ev(rhs)
        if isinstance(v, (ProcV, AbsProc)):
            raise Unsupported("procedure value in assignment")
        r = self.lval(lhs)
        old = self.read(r) if not (r.sels and r.sels[-1][0] == "i") else None
        lt = self.lhs_type(r, lhs, old)
        bt, tn, rk = vtype(v)
        # defined assignment
        if lt[0] == "type" or bt == "type":
            if not (lt[0] == "type" and bt == "type" and lt[1] == tn):
                cands = self.generic_procs("assignment(=)")
                acts = [Actual(self, ref=r), Actual(self, v=v)]
                p, _ = self.resolve(cands, acts, {})
                if p is None:
                    raise Unsupported("no assignment for %s = %s" % (lt, describe(v)))
                self.call_proc(p, acts, {})
                return
        self.assign_to(r, old, lt, v, lhs)

    def lhs_type(self, r, lhs, old):
        """(base, typename, rank) of the designator"""
        if old is None:
            v = self.read_elem_type(r)
            return v
        if isinstance(old, Unalloc):
            return (old.elem[0], old.elem[1], old.rank)
        if isinstance(old, Undef):
            return (old.typ, None, 0)
        return vtype(old)

    def read_elem_type(self, r):
        base = Ref(r.root, r.sels[:-1])
        a = self.read(base)
        if isinstance(a, Arr):
            return (a.elem[0], a.elem[1], 0)
        raise Unsupported("element of non-array")

    def assign_to(self, r, old, lt, v, lhs):
        eng = self.e
        if old is None:
            self.write(r, self.coerce_scalar(v, lt))
            return
        if isinstance(old, Unalloc):
            if isinstance(v, Arr):
                self.write(r, self.coerce_arr(v.withlb([iv(1)] * v.rank), old.elem))
                return
            if old.rank == 0:
                self.write(r, v)
                return
            eng.fail("assignment to unallocated array", show(lhs), "bounds")
            raise Infeasible()
        if isinstance(old, Arr):
            if isinstance(v, Arr):
                if v.rank != old.rank:
                    raise Unsupported("rank mismatch in assignment")
                whole = lhs[0] in ("name", "mem")
                for (l1, n1), (l2, n2) in zip(old.dims, v.dims):
                    if same(n1, n2):
                        continue
                    if whole and self.is_allocatable(lhs):
                        if not eng.entails(n1 == n2):
                            self.write(r, self.coerce_arr(v.withlb([iv(1)] * v.rank), old.elem))
                            return
                    eng.oblige(n1 == n2, "shape conformance in assignment to %s" % show(lhs), "shape")
                nv = self.coerce_arr(v, old.elem)
                self.write(r, Arr(eng, old.elem, old.dims, nv.layers, nv.src))
            else:
                self.write(r, self.fill(old, self.coerce_scalar(v, (old.elem[0], old.elem[1], 0))))
            return
        if isinstance(v, Arr):
            raise Unsupported("array assigned to scalar %s" % show(lhs))
        self.write(r, self.coerce_scalar(v, lt))

    def is_allocatable(self, lhs):
        if lhs[0] == "name":
            vb = self.lookup_var(lhs[1])
            if vb is not None:
                return vb.decl is not None and "allocatable" in vb.decl.attrs
            for x in self.lookup_ents(lhs[1]):
                if x.kind == "var":
                    return "allocatable" in x.obj.attrs
            return False
        t = self.static_type(lhs[1])
        for c in self.all_comps(t or ""):
            if c.name == lhs[2]:
                return "allocatable" in c.attrs
        return False

    def coerce_scalar(self, v, lt):
        if isinstance(v, Sc) and lt[0] in ("real", "integer") and v.typ != lt[0]:
            return self.convert(v, lt)
        return v

    def coerce_arr(self, v, elem):
        if elem[0] in ("real", "integer") and v.elem[0] in ("real", "integer") and v.elem[0] != elem[0]:
            return Arr.base(self.e, elem, v.extents(), lambda idx: self.convert(v.get(idx), elem))
        return v

    def ptr_write(self, lhs, val):
        if lhs[0] == "name":
            vb = self.lookup_var(lhs[1])
            if vb is None:
                for x in self.lookup_ents(lhs[1]):
                    if x.kind == "var":
                        self.e.store[self.global_cell(x.module, lhs[1])] = val
                        return
                raise Unsupported("pointer " + lhs[1])
            self.write(vb.ref, val)
            return
        r = self.lval(lhs, ptr=True)
        self.write(r, val)

    def x_ptrassign(self, s):
        lhs, rhs = s.lhs, s.rhs
        # procedure pointer?
        val = None
        if rhs[0] == "name":
            vb = self.lookup_var(rhs[1])
            if vb is not None and vb.decl is not None and vb.decl.ts[0] == "procedure":
                val = self.read(vb.ref)
            elif vb is None:
                p = self.lookup_proc(rhs[1])
                if p is not None:
                    val = ProcV(p)
        if val is None and rhs[0] == "ref" and rhs[1] == ("name", "null"):
            val = NULL
        if val is None:
            r = self.try_lval(rhs)
            if r is not None:
                val = r
                raw = None
            else:
                v = self.ev_pointer(rhs)
                val = v
        self.ptr_write(lhs, val)

    def ev_pointer(self, e):
        """function reference returning a pointer"""
        if e[0] == "ref" and e[1][0] == "name":
            v = self.call_name(e[1][1], e[2], want=True)
        else:
            v = self.ev(e)
        if isinstance(v, (Ref, Null)):
            return v
        return Ref(self.e.cell(v))

    def x_allocate(self, s):
        src = None
        targets = []
        for a in s.args:
            if a[0] == "kw":
                if a[1] in ("source", "mold"):
                    src = (a[1], self.ev(a[2]))
                elif a[1] in ("stat", "errmsg"):
                    raise Unsupported("allocate with stat")
                continue
            targets.append(a)
        for a in targets:
            if a[0] == "ref":
                r = self.lval(a[1])
                cur = self.read(r)
                if not isinstance(cur, Unalloc):
                    if isinstance(cur, Arr):
                        self.e.fail("allocate of an allocated array %s" % show(a[1]), "", "bounds")
                        raise Infeasible()
                    raise Unsupported("allocate target")
                dims = self.eval_dims(a[2], self.fr)
                if src is not None and src[0] == "source":
                    v = src[1]
                    if isinstance(v, Arr):
                        arr = Arr(self.e, cur.elem, dims, v.layers)
                    else:
                        v = self.coerce_scalar(v, (cur.elem[0], cur.elem[1], 0))
                        arr = Arr.base(self.e, cur.elem, [n for _, n in dims], lambda idx, v=v: v, [l for l, _ in dims])
                else:
                    if cur.elem[0] == "type":
                        dv = self.default_scalar(cur.elem, self.fr.module)
                    else:
                        dv = Undef(cur.elem[0])
                    arr = Arr.base(self.e, cur.elem, [n for _, n in dims], lambda idx, dv=dv: dv, [l for l, _ in dims])
                self.write(r, arr)
            else:
                r = self.lval(a)
                cur = self.read(r)
                if isinstance(cur, Unalloc) and src is not None:
                    self.write(r, src[1])
                else:
                    raise Unsupported("allocate of scalar")

    def x_deallocate(self, s):
        for a in s.args:
            if a[0] == "kw":
                raise Unsupported("deallocate with stat")
            r = self.lval(a)
            cur = self.read(r)
            if isinstance(cur, Unalloc):
                self.e.fail("deallocate of an unallocated array", show(a), "bounds")
                raise Infeasible()
            self.write(r, Unalloc(cur.elem, cur.rank))

    # ------------------------------------------------------------------ loops
    def x_do(self, s):
        eng = self.e
        lo, hi = self.ev(s.lo).t, self.ev(s.hi).t
        st = self.ev(s.st).t if s.st is not None else iv(1)
        stc = cint(st)
        if stc is None or stc == 0:
            raise Unsupported("do loop with a symbolic step")
        if stc in (1, -1):
            n = norm((hi - lo) * stc + 1)
        else:
            span = cint(hi - lo)
            if span is None:
                raise Unsupported("do loop with step %d" % stc)
            n = iv(max(0, (span + stc) // stc))
        r = self.lval(("name", s.var))
        nc = cint(n)
        if nc is None:
            # constant by the path condition?
            for c in (0, 1, 2):
                if eng.entails(n <= 0 if c == 0 else n == c):
                    nc = c
                    n = iv(c)
                    break
        if nc is not None and nc <= 20:
            i = lo
            for q in range(max(0, nc)):
                self.write(r, Sc("integer", norm(lo + q * stc)))
                if not self.run_iter(s):
                    return
            self.write(r, Sc("integer", norm(lo + max(0, nc) * stc)))
            return
        from . import loops
        loops.sym_do(self, s, r, lo, stc, n)

    def run_iter(self, s):
        """returns False when the loop was left by exit"""
        try:
            self.exec_block(s.body)
        except CycleEx as c:
            if c.name is not None and c.name != s.name:
                raise
        except ExitEx as x:
            if x.name is not None and x.name != s.name:
                raise
            return False
        return True

    def x_while(self, s):
        from . import loops
        loops.sym_while(self, s)

_keep_terms = []

class NotDesignator(Exception):
    pass

# ---------------------------------------------------------------------- helpers
def show(e):
    k = e[0]
    if k == "name":
        return e[1]
    if k == "mem":
        return show(e[1]) + "%" + e[2]
    if k == "ref":
        return show(e[1]) + "(..)"
    return k

def elem_type(v):
    b, t, r = vtype(v)
    return (b, t)

def vtype(v):
    if isinstance(v, Arr):
        return (v.elem[0], v.elem[1], v.rank)
    if isinstance(v, Unalloc):
        return (v.elem[0], v.elem[1], v.rank)
    if isinstance(v, Struct):
        return ("type", v.tn, 0)
    if isinstance(v, (Bits, BaseCell)):
        return ("integer", None, 0)
    if isinstance(v, (ProcV, AbsProc, SymProc)):
        return ("procedure", None, 0)
    if isinstance(v, Undef):
        return (v.typ, None, 0)
    if isinstance(v, Sc):
        return (v.typ, None, 0)
    if isinstance(v, (Ref, Null)):
        return ("pointer", None, 0)
    if hasattr(v, "vt"):
        return v.vt
    raise Unsupported("vtype %r" % (v,))

def type_name(v):
    b, t, r = vtype(v)
    return t if b == "type" else None

def describe(v):
    b, t, r = vtype(v)
    return "%s%s%s" % (b, "(%s)" % t if t else "", "[%d]" % r if r else "")

def involves_derived(v):
    return vtype(v)[0] == "type"

def trunc(t):
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))

def section(eng, arr, specs):
    """array value of arr(specs); specs per dim ('i',t) | ('r',off,cnt,st) | ('v',Arr,lb)"""
    ext = []
    for sp in specs:
        if sp[0] == "r":
            ext.append(sp[2])
        elif sp[0] == "v":
            ext.append(sp[1].extents()[0])
    def mapidx(idx):
        out, j = [], 0
        for sp in specs:
            if sp[0] == "i":
                out.append(sp[1])
            elif sp[0] == "r":
                out.append(norm(sp[1] + (idx[j] - 1) * sp[3]))
                j += 1
            else:
                out.append(norm(sp[1].get((idx[j],)).t - sp[2] + 1))
                j += 1
        return tuple(out)
    src = None
    if arr.elem[0] == "integer" and arr.rank == 1 and specs[0][0] == "r" and cint(specs[0][3]) == 1:
        src = (arr, norm(specs[0][1] - 1))   # section cell k is arr cell k+off
        if arr.src is not None and len(arr.layers) == 1:
            src = (arr.src[0], norm(arr.src[1] + specs[0][1] - 1))
    return Arr.base(eng, arr.elem, ext, lambda idx: arr.get(mapidx(idx)), None, src)

def put_section(eng, arr, specs, new):
    if arr.rank == 1 and specs[0][0] == "r" and cint(specs[0][3]) == 1:
        off, cnt = specs[0][1], specs[0][2]
        rg = getattr(new, "src", None)
        realgetter, copyfrom = None, None
        if isinstance(rg, tuple) and rg and rg[0] == "realbits":
            realgetter = rg[1]
        elif isinstance(rg, tuple) and len(new.layers) == 1:
            # cell lo+k-1 of arr is cell off2+k of source: offset = (lo-1) - off2
            copyfrom = (rg[0], norm(off - 1 - rg[1]))
        elif arr.elem[0] == "integer" and len(new.layers) >= 1:
            copyfrom = (new, norm(off - 1))
        return arr.layer(("rng", off, cnt, lambda o: new.get((o,)), realgetter, copyfrom))
    def match(idx):
        out = []
        for x, sp in zip(idx, specs):
            if sp[0] == "i":
                if not match_idx(eng, (x,), (sp[1],)):
                    return None
            elif sp[0] == "r":
                st = cint(sp[3])
                if st == 1:
                    o = in_range(eng, x, sp[1], sp[2])
                    if o is None:
                        return None
                    out.append(o)
                elif st == -1:
                    o = in_range(eng, x, norm(sp[1] - sp[2] + 1), sp[2])
                    if o is None:
                        return None
                    out.append(norm(sp[2] - o + 1))
                else:
                    raise Unsupported("strided section assignment")
            else:
                raise Unsupported("vector subscript assignment")
        return tuple(out)
    return arr.layer(("sec", match, lambda idx: new.get(idx), specs))

def array_cons(eng, parts):
    """array constructor from scalars and arrays (arrays flattened column-major)"""
    segs = []
    n = iv(0)
    el = None
    for p in parts:
        if isinstance(p, Arr):
            flat = flatten(eng, p)
            segs.append((n, flat.extents()[0], flat))
            n = norm(n + flat.extents()[0])
            el = el or p.elem
        else:
            segs.append((n, iv(1), p))
            n = norm(n + 1)
            el = el or elem_type(p)
    if el is None:
        el = ("real", None)
    def get(idx):
        k = idx[0]
        for off, cnt, p in segs[:-1]:
            o = in_range(eng, k, norm(off + 1), cnt)
            if o is not None:
                return p.get((o,)) if isinstance(p, Arr) else p
        off, cnt, p = segs[-1]
        return p.get((norm(k - off),)) if isinstance(p, Arr) else p
    if not segs:
        return Arr.base(eng, el, [iv(0)], lambda idx: UNDEF)
    return Arr.base(eng, el, [n], get)

def flatten(eng, a):
    if a.rank == 1:
        return a
    if a.rank == 2:
        m, n = a.extents()
        def get(idx):
            i, j = split_index(eng, norm(idx[0] - 1), m, n)
            return a.get((i, j))
        return Arr.base(eng, a.elem, [norm(m * n)], get)
    raise Unsupported("rank>2 flatten")

def split_index(eng, off, m, n):
    """off = (i-1) + m*(j-1) -> (i, j), 1<=i<=m, 1<=j<=n"""
    mc = cint(m)
    if mc == 1:
        return iv(1), norm(off + 1)
    if mc is not None:
        ds = divstruct(off, mc)
        if ds is not None:
            return iv(ds[1] + 1), norm(ds[0] + 1)
    for q in poly_div_hint(off, m):
        r = norm(off - q * m)
        if eng.entails(z3.And(r >= 0, r < m)):
            return norm(r + 1), norm(q + 1)
    i, j = eng.fresh("i"), eng.fresh("j")
    eng.add(i >= 1, i <= m, j >= 1, j <= n, off == (i - 1) + m * (j - 1))
    return i, j

def poly_div_hint(p, d):
    """candidate quotients of p by d (polynomial division by a single-monomial divisor, and neighbours)"""
    P, D = poly(p), poly(d)
    if len(D) != 1:
        return [iv(0)]
    (dm, dv), = D.items()
    q = {}
    for m, v in P.items():
        rest = list(m)
        ok = True
        for a in dm:
            if a in rest:
                rest.remove(a)
            else:
                ok = False
                break
        if ok and v % dv == 0:
            q[tuple(sorted(rest))] = v // dv
    b = unpoly(q)
    return [b, norm(b - 1), norm(b + 1)]

def named_constant(lit):
    """real literals that are the closest double of a multiple of pi"""
    from mpmath import mp
    mp.dps = 30
    x = lit[1]
    digits = len(re.sub(r"[^0-9]", "", lit[2].lower().split("e")[0].split("d")[0]).lstrip("0"))
    if digits < 15:
        return None
    import mpmath
    v = mpmath.mpf(x.numerator) / x.denominator
    for num, den in ((1, 4), (1, 2), (1, 1), (2, 1)):
        if abs(v - mpmath.pi * num / den) < mpmath.mpf(10) ** -15:
            return PI * z3.Q(num, den)
    return None
