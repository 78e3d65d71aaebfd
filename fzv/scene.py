"""An arbitrary well-formed state of the library: call stack of nodes, tape, nested scopes."""
import z3
from .core import *
from .fparse import *
from .interp import Interp, Frame, VarB, Actual

class Node:
    pass

class Scene:
    """alloc=True: storage already allocated (any reachable state but the very first);
    alloc=False: the initial state.  scopes: None = any nesting level, 0 = none open, 1 = at least one open."""
    def __init__(self, ip, alloc=True, scopes=None, full=None):
        self.ip, self.e = ip, ip.e
        e = self.e
        ip.scene = self
        self.dispatch = None
        self.nodes = []
        self.scope_reads = []
        self.node_hooks = []
        self.isn_facts = []
        self.memo = set()
        self.vm = ip.P.modules["fazang_vari_mod"]
        self.nm = ip.P.modules["fazang_nested_tape_mod"]
        self.tm = ip.P.modules["fazang_tape_mod"]
        e.facts_hooks = [self]
        ip.init_globals()
        self.cs = Ref(ip.global_cell(self.vm, "callstack"))
        self.tp = self.cs.f("stack")
        self.H = e.fresh("H")
        self.h = e.fresh("h")
        self.NV = e.fresh("NV")
        self.SZ = e.fresh("SZ")
        self.loc = z3.Function("loc", I, I)
        self.ch = z3.Function("ch", I, I)
        self.len = z3.Function("len", I, I)
        self.NODEAT = z3.Function("nodeat", I, I)
        self.ISN = z3.Function("isn", I, B)
        self.alloc = alloc
        cur = e.store[self.cs.root]
        self.base = TapeBase(e, "T", zero_from=self.h)
        if alloc:
            e.add(self.H >= 1, self.h >= 1, self.NV >= 1, self.SZ >= 1, self.H <= self.NV + 1, self.h <= self.SZ + 1)
            base = self.base
            storage = Arr.base(e, ("integer", None), [self.SZ], lambda idx: BaseCell(base, idx[0]))
            varis = Arr.base(e, ("type", "vari"), [self.NV], lambda idx: self.node(idx[0]))
            tape = cur.f["stack"].with_("head", Sc("integer", self.h)).with_("storage_size", Sc("integer", self.SZ)).with_("storage", storage)
            cur = cur.with_("head", Sc("integer", self.H)).with_("n_varis", Sc("integer", self.NV)).with_("varis", varis).with_("stack", tape)
            e.store[self.cs.root] = cur
        else:
            e.add(self.H == 1, self.h == 1, self.NV == 0, self.SZ == 0)
        # nested scopes
        self.nl = e.fresh("nl")
        self.nvh = z3.Function("nvh", I, I)
        self.nth = z3.Function("nth", I, I)
        self.lvl = Ref(ip.global_cell(self.nm, "nest_level"))
        self.nvr = Ref(ip.global_cell(self.nm, "nested_vari_head"))
        self.ntr = Ref(ip.global_cell(self.nm, "nested_tape_head"))
        nmax = e.store[self.nvr.root].dims[0][1]
        e.add(self.nl >= 0, self.nl <= nmax)
        if scopes == 0:
            e.add(self.nl == 0)
        elif scopes == 1:
            e.add(self.nl >= 1)
        e.store[self.lvl.root] = Sc("integer", self.nl)
        e.store[self.nvr.root] = Arr.base(e, ("integer", None), [nmax], lambda idx: Sc("integer", self.scope(idx[0], self.nvh)))
        e.store[self.ntr.root] = Arr.base(e, ("integer", None), [nmax], lambda idx: Sc("integer", self.scope(idx[0], self.nth)))
        self.nmax = nmax
        self.s0 = dict(e.store)

    # facts are instantiated when something is read
    def snapshot(self):
        return (list(self.nodes), list(self.scope_reads), set(self.memo), list(self.isn_facts))
    def restore(self, s):
        self.nodes, self.scope_reads, self.memo, self.isn_facts = list(s[0]), list(s[1]), set(s[2]), list(s[3])

    def valid(self, m):
        return z3.And(m >= 1, m <= self.H - 1)

    def node(self, m):
        m = norm(m)
        self.reg(m)
        return Struct("vari", {"i": Sc("integer", self.loc(m)), "chain": SymProc(self.ch(m))})

    def reg(self, m):
        m = norm(m)
        if any(same(m, x) for x in self.nodes):
            return
        e = self.e
        L = self.loc(m)
        v = self.valid(m)
        e.add(z3.Implies(v, z3.And(L >= 1, self.len(m) >= 6, L + self.len(m) <= self.h, self.NODEAT(L) == m, self.ISN(L),
                                   *[z3.Not(self.ISN(L + c)) for c in (-5, -4, -3, -2, -1, 1, 2, 3, 4, 5)])))
        for x in self.nodes:
            e.add(z3.Implies(z3.And(v, self.valid(x), m < x), L + self.len(m) <= self.loc(x)),
                  z3.Implies(z3.And(v, self.valid(x), x < m), self.loc(x) + self.len(x) <= L))
        for k in self.scope_reads:
            self.node_scope(m, k)
        self.nodes.append(m)
        for f in self.node_hooks:
            f(m)

    def node_scope(self, m, k):
        self.e.add(z3.Implies(z3.And(self.valid(m), k >= 1, k <= self.nl),
                              z3.If(m >= self.nvh(k), self.loc(m) >= self.nth(k), self.loc(m) + self.len(m) <= self.nth(k))))

    def scope(self, k, fn):
        k = norm(k)
        if not any(same(k, x) for x in self.scope_reads):
            e = self.e
            inr = z3.And(k >= 1, k <= self.nl)
            e.add(z3.Implies(inr, z3.And(self.nvh(k) >= 1, self.nvh(k) <= self.H, self.nth(k) >= 1, self.nth(k) <= self.h)),
                  z3.Implies(k > self.nl, z3.And(self.nvh(k) == 0, self.nth(k) == 0)))
            for x in self.scope_reads:
                e.add(z3.Implies(z3.And(inr, x >= 1, x <= self.nl, k <= x), z3.And(self.nvh(k) <= self.nvh(x), self.nth(k) <= self.nth(x))),
                      z3.Implies(z3.And(inr, x >= 1, x <= self.nl, x <= k), z3.And(self.nvh(x) <= self.nvh(k), self.nth(x) <= self.nth(k))))
            self.scope_reads.append(k)
            for m in self.nodes:
                self.node_scope(m, k)
        return fn(k)

    # ---------------- views of a state
    def storage(self, st=None):
        return self.view(self.tp.f("storage"), st)
    def view(self, ref, st=None):
        e = self.e
        if st is None:
            return self.ip.read(ref)
        cur = e.store
        e.store = st
        try:
            return self.ip.read(ref)
        finally:
            e.store = cur
    def head(self, st=None):
        return self.view(self.cs.f("head"), st).t
    def thead(self, st=None):
        return self.view(self.tp.f("head"), st).t
    def vnode(self, m, st=None):
        return self.view(self.cs.f("varis"), st).get((m,))
    def nloc(self, m, st=None):
        return norm(self.vnode(m, st).f["i"].t)
    def val(self, m, st=None):
        return self.storage(st).real_at(self.nloc(m, st))
    def adj(self, m, st=None):
        return self.storage(st).real_at(norm(self.nloc(m, st) + 2))

    def new_node(self, name="a"):
        a = self.e.fresh(name)
        self.e.add(self.valid(a))
        self.e.reg_index(a)
        self.reg(a)
        return a

    def is_node_loc(self, p):
        """facts about ISN(p) for positions in appended records, then decide"""
        for f in self.isn_facts:
            f(p)
        return self.e.decide(self.ISN(p))

class AdjH:
    """layer: the adjoint of every recorded variable (at a position from lo on) has the value fn(position)"""
    def __init__(self, scene, fn, lo=None):
        self.s, self.fn, self.lo = scene, fn, lo
    def node(self, L):
        s = self.s
        if not s.is_node_loc(L):
            return False
        return self.lo is None or s.e.decide(L >= self.lo)
    def cell(self, arr, p, top):
        if self.s.is_node_loc(norm(p - 2)):
            return Bits(0, self.fn(norm(p - 2))) if self.node(norm(p - 2)) else None
        if self.s.is_node_loc(norm(p - 3)):
            return Bits(1, self.fn(norm(p - 3))) if self.node(norm(p - 3)) else None
        return None
    def real(self, arr, p, top):
        s = self.s
        if s.is_node_loc(norm(p - 2)):
            return self.fn(norm(p - 2)) if self.node(norm(p - 2)) else None
        for q in (norm(p - 3), norm(p - 1)):
            if s.is_node_loc(q):
                return join_cells(arr.eng, arr._get((p,), top), arr._get((norm(p + 1),), top)) if self.node(q) else None
        return None

class AdjAcc:
    """layer: adjoint of the node at id(j) grows by d(j), j = 1..n"""
    def __init__(self, scene, n, idf, df, name="acc"):
        self.s, self.n, self.id, self.d = scene, n, idf, df
    def amount(self, L):
        e = self.s.e
        return e.mksum(self.n, lambda j: z3.If(self.id(j) == L, self.d(j), rv(0)))
    def cell(self, arr, p, top):
        if self.s.is_node_loc(norm(p - 2)):
            return Bits(0, arr.real_at(p, top - 1) + self.amount(norm(p - 2)))
        if self.s.is_node_loc(norm(p - 3)):
            return Bits(1, arr.real_at(norm(p - 1), top - 1) + self.amount(norm(p - 3)))
        return None
    def real(self, arr, p, top):
        s = self.s
        if s.is_node_loc(norm(p - 2)):
            return arr.real_at(p, top - 1) + self.amount(norm(p - 2))
        for q in (norm(p - 3), norm(p - 1)):
            if s.is_node_loc(q):
                return join_cells(arr.eng, arr._get((p,), top), arr._get((norm(p + 1),), top))
        return None

