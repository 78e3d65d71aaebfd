"""Error weights and tolerances: what every norm of the integrator measures with."""
import z3
from . import eng, harness
from .eng import *
from .run import Unit
from .cv import *
from .cv import frame as cvframe
from .nls import index, allof, havv, udata, opaque, CVF
from .ctrl import rabs

UNITS = []
def unit(id, body, extra=(), **k):
    UNITS.append(Unit(id, FILES + tuple(extra), body, contracts=CT, **k))

def least(cx, spec, n, Ns=None):
    """N_VMin of a work vector by its contract (proved with the vector operations): the least element, which is one of them.
    spec(k, i) is what the vector may hold while sensitivity k is handled; k is recovered from the contents."""
    E = cx.E
    srt = [z3.IntSort()] if Ns is not None else []
    if srt:
        MIN, WIT = z3.Function("least!%d" % eng.fresh_id(), z3.IntSort(), z3.RealSort()), z3.Function("least_at!%d" % eng.fresh_id(), z3.IntSort(), z3.IntSort())
    else:
        m_, w_ = z3.Real("least"), z3.Int("least_at")
        MIN, WIT = (lambda k: m_), (lambda k: w_)
    i, k = E.fint("i"), E.fint("k")
    def facts(k):
        return z3.And(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), MIN(k) <= spec(k, i))), WIT(k) >= 0, WIT(k) < n, MIN(k) == spec(k, WIT(k)))
    E.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < Ns), facts(k))) if Ns is not None else facts(0))
    def vmin(E, a):
        v = a[0]
        t = E.fint("t")
        R = z3.And(t >= 0, t < n)
        if v.rid in harness.v_data:
            c = zr(cx.cell(harness.v_data[v.rid], (t,), False))
        else:
            c = zr(E.read_arr(E.arr(Ptr(vecdata(cx, v), (), tuple(v.coords) + (t,), "R", "double")), tuple(v.coords) + (t,), False))
        cand = [None] if Ns is None else candidates(c, t)
        for q in cand:
            qq = 0 if q is None else q
            if E.prove(z3.Implies(R, c == zr(spec(qq, t))), (), 4000)[0] is True:
                return MIN(zi(qq))
        raise Unsupported("least element of another vector")
    stub(cx, "N_VMin", vmin, "N_VMin by its contract (proved with the vector operations)")
    return MIN, WIT
def vecdata(cx, v):
    if v.rid in harness.f_vecs:
        return harness.f_vecs[v.rid]
    raise Unsupported("vector")
def candidates(e, t):
    """integer terms the contents depend on"""
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_int(x) and not x.eq(t) and not z3.is_quantifier(x) and len(out) < 12:
            out.append(x)
        st.extend(x.children())
    return out

WHICH = {"": ("cvEwtSet", "", "cv_tempv"), "Quad": ("cvQuadEwtSet", "Q", "cv_tempvQ"), "Sens": ("cvSensEwtSet", "S", "cv_tempv"), "QuadSens": ("cvQuadSensEwtSet", "QS", "cv_tempvQ")}
CODE = dict(SS=1, SV=2, EE=4)
def weights(cx, which, tol):
    E = cx.E
    fnm, sfx, tmp = WHICH[which]
    sens, quad = which in ("Sens", "QuadSens"), "Quad" in which
    n = cx.N("N", 1)
    m = cvmem(cx, None, n, quadr=1 if quad else 0, sensi=1 if sens else 0, quadr_sensi=1 if which == "QuadSens" else 0)
    nn = m.NQ if quad else m.N
    if quad:
        E.assume(m.NQ >= 1)
    tv = vecf(cx, m, tmp, nn)
    cx.set(m.p, "cv_itol" + sfx, CODE[tol])
    rt = now(cx, m, "cv_reltol" + sfx)
    Ns = m.Ns if sens else None
    if sens:
        y, w = cx.fam("cur", [Ns], nn), cx.fam("weight", [Ns], nn)
        Y = lambda k, i: zr(cx.fel(y, (k, i)))
        Wt = lambda k, i: zr(cx.fel(w, (k, i), False))
        cx.fel(y, (0, 0)); cx.fel(w, (0, 0))
    else:
        y, w = cx.vec("cur", nn), cx.vec("weight", nn)
        Y = lambda k, i: zr(cx.el(y, i))
        Wt = lambda k, i: zr(cx.el(w, i, False))
        cx.el(y, 0); cx.el(w, 0)
    min0n = {"": "cv_atolmin0", "Quad": "cv_atolQmin0", "Sens": "cv_atolSmin0", "QuadSens": "cv_atolQSmin0"}[which]
    i, k = z3.Int("q_i"), z3.Int("q_k")
    sc = [harness.v_data[tv.rid], (harness.f_data if sens else harness.v_data)[w.rid]]
    if tol == "EE":
        pb = cx.realarr("pbar", Ns)
        cx.set(m.p, "cv_pbar", pb)
        tS = famf(cx, m, "cv_tempvQS" if quad else "cv_tempvS", nn)
        sc.append(harness.f_data[tS.rid])
        PB = lambda k: zr(cx.cell(pb.rid, (k,)))
        cx.cell(pb.rid, (0,))
        R_ = z3.Function("ewt_returns", z3.IntSort(), z3.IntSort())
        W_ = z3.Function("ewt_of", z3.IntSort(), z3.IntSort(), z3.RealSort())
        ud = udata(cx, m, "cv_e_data")
        dw = harness.f_data[w.rid]
        def efun(E, a):
            if quad:
                cx.same("weights of this integrator", a[0], m.p)
                v, ww = a[1], a[2]
            else:
                v, ww = a[0], a[1]
                cx.same("with the user's data", a[2], ud)
            if ww.rid != cx.read(w, 0).rid:
                raise Unsupported("weights into another vector")
            k = zi(ww.coords[-1])
            t = E.fint("t")
            R = z3.And(t >= 0, t < nn)
            d = harness.v_data[v.rid] if v.rid in harness.v_data else vecdata(cx, v)
            pre = () if v.rid in harness.v_data else tuple(v.coords)
            cx.ob("weights of the scaled sensitivity", z3.Implies(R, zr(E.read_arr(E.arr(Ptr(d, (), pre + (t,), "R", "double")), pre + (t,), False)) == PB(k) * Y(k, t)))
            u = E.fint("t")
            E.st.mem[(dw, ())] = E.arr(Ptr(dw, (), (k, 0), "R", "double")).write(Layer((u,), z3.And(u >= 0, u < nn), (k, u), W_(k, u)))
            if E.st.wlog is not None:
                E.st.wlog.append((Ptr(dw, (), (k, u), "R", "double"),))
            return R_(k)
        if quad:
            stub(cx, "cvQuadEwtSet", efun, "cvQuadEwtSet by its own contract (a unit of this property)")
        else:
            cx.set(m.p, "cv_efun", user(cx, "user_efun", efun))
        cx.start()
        r = zi(cx.fn(fnm, [m.p, y, w], CVF))
        cx.ob("succeeds or fails", z3.Or(r == 0, r == -1))
        jj = E.fint("k")
        cx.ob("success means that every sensitivity has its weights", z3.Implies(z3.And(r == 0, jj >= 0, jj < Ns), R_(jj) == 0))
        cx.ob("failure means that one has not", z3.Implies(r != 0, z3.Exists([k], z3.And(k >= 0, k < Ns, R_(k) != 0))))
        if E.prove(r == 0, (), 3000)[0] is True:
            allof(cx, "weights of a sensitivity: those of the scaled sensitivity, scaled", w, nn, lambda k, i: PB(k) * W_(k, i), Ns=Ns)
        cvframe(cx, m, scratch=sc)
        return
    if tol == "SS":
        if sens:
            ab = cx.realarr("Sabstol", Ns)
            cx.cell(ab.rid, (0,))
            cx.set(m.p, "cv_Sabstol" + sfx, ab)
            A = lambda k, i: zr(cx.cell(ab.rid, (k,)))
        else:
            a0 = now(cx, m, "cv_Sabstol" + sfx)
            A = lambda k, i: zr(a0)
    elif sens:
        ab = cx.fam("Vabstol", [Ns], nn)
        cx.set(m.p, "cv_Vabstol" + sfx, ab)
        cx.fel(ab, (0, 0))
        A = lambda k, i: zr(cx.fel(ab, (k, i)))
    else:
        ab = cx.vec("Vabstol", nn)
        cx.set(m.p, "cv_Vabstol" + sfx, ab)
        cx.el(ab, 0)
        A = lambda k, i: zr(cx.el(ab, i))
    if sens:
        m0 = cx.intarr("atolmin0", Ns)
        cx.cell(m0.rid, (0,))
        cx.set(m.p, min0n, m0)
        M0 = lambda k: zi(cx.cell(m0.rid, (k,)))
    else:
        m00 = now(cx, m, min0n)
        M0 = lambda k: zi(m00)
    S = lambda k, i: zr(rt) * rabs(Y(k, i)) + A(k, i)
    MIN, WIT = least(cx, S, nn, Ns)
    # where the test is switched off the tolerances are positive (what the setters record)
    qs = [i] + ([k] if sens else [])
    E.assume(z3.ForAll(qs, z3.Implies(z3.And(i >= 0, i < nn, *([k >= 0, k < Ns] if sens else []), M0(k) == 0), S(k, i) > 0)))
    cx.start()
    r = zi(cx.fn(fnm, [y, w, m.p] if which == "" else [m.p, y, w], CVF))
    cx.ob("succeeds or fails", z3.Or(r == 0, r == -1))
    kk = E.fint("k")
    K = [kk >= 0, kk < Ns] if sens else []
    ii = index(cx, nn)
    cx.ob("success means that every weight is positive", z3.Implies(z3.And(r == 0, *K), z3.And(S(kk, ii) > 0)))
    bad = lambda k: z3.And(M0(k) != 0, MIN(k) <= 0)
    cx.ob("failure means that some weight would not be", z3.Implies(r != 0, z3.Exists([k], z3.And(k >= 0, k < Ns, bad(k))) if sens else bad(0)))
    if E.prove(r == 0, (), 3000)[0] is True:
        cx.ob("a weight is the inverse of relative tolerance times magnitude plus absolute tolerance", z3.Implies(z3.And(*K), Wt(kk, ii) == 1 / S(kk, ii)))
    cvframe(cx, m, scratch=sc)
for which in WHICH:
    for tol in ("SS", "SV", "EE"):
        if tol == "EE" and which in ("", "Quad"):
            continue
        unit("%s, %s" % (WHICH[which][0], {"SS": "scalar absolute tolerances", "SV": "vector absolute tolerances", "EE": "estimated tolerances"}[tol]), lambda cx, w=which, t=tol: weights(cx, w, t))

# ---------------------------------------------------------------- setting tolerances
def fn_ok(cx, name):
    if cx.E.P.find_any(name) is None:
        raise Unsupported("function %s does not exist" % name)
def setter(cx, which, tol, had, null=False):
    E = cx.E
    _, sfx, tmp = WHICH[which]
    name = "CVode%s%stolerances" % (which, tol)
    fn_ok(cx, name)
    sens, quad = which in ("Sens", "QuadSens"), "Quad" in which
    if null:
        eng.MALLOC_MAY_FAIL[0] = False
        quiet(cx)
        cx.template()
        cx.start()
        args = {"SS": [NULL, cx.real("rt"), NULL if sens else cx.real("at")], "SV": [NULL, cx.real("rt"), NULL], "EE": [NULL], "WF": [NULL, FnVal("user_efun")]}[tol]
        cx.same("a missing block is refused", zi(cx.fn(name, args, CVF)), -21)
        return
    n = cx.N("N", 1)
    m = cvmem(cx, None, n, quadr=1 if quad else 0, sensi=1 if sens else 0, quadr_sensi=1 if which == "QuadSens" else 0)
    nn = m.NQ if quad else m.N
    if quad:
        E.assume(m.NQ >= 1)
    tv = vecf(cx, m, "cv_tempv")
    if quad:
        vecf(cx, m, "cv_tempvQ", nn)
    vecf(cx, m, "cv_ewt")
    Ns = m.Ns if sens else None
    mall = {"": ["cv_MallocDone"], "Quad": ["cv_QuadMallocDone"], "Sens": ["cv_SensMallocDone"], "QuadSens": ["cv_SensMallocDone", "cv_QuadSensMallocDone"]}[which]
    codes = {"cv_MallocDone": -23, "cv_QuadMallocDone": -30, "cv_SensMallocDone": -40, "cv_QuadSensMallocDone": -50}
    md = []
    for f in mall:
        v = now(cx, m, f)
        E.assume(z3.Or(v == 0, v == 1))
        md.append((v, codes[f]))
    missing = zi(0)
    for v, c in reversed(md):
        missing = z3.If(v == 0, zi(c), missing)
    rt = cx.real("reltol")
    want = dict()
    data, scratch = {}, []
    itol = "cv_itol" + sfx
    min0n = {"": "cv_atolmin0", "Quad": "cv_atolQmin0", "Sens": "cv_atolSmin0", "QuadSens": "cv_atolQSmin0"}[which]
    if tol in ("EE", "WF"):
        ef = FnVal("user_efun")
        cx.start()
        r = zi(cx.fn(name, [m.p] + ([ef] if tol == "WF" else []), CVF))
        cx.same("refused only when what it is for does not exist", r, missing)
        ok = E.prove(r == 0, (), 3000)[0] is True
        fs = [itol]
        if ok:
            cx.same("the kind of tolerances", now(cx, m, itol), dict(EE=4, WF=3)[tol])
            if tol == "WF":
                cx.same("the user's weights", now(cx, m, "cv_efun"), ef)
                cx.ob("marked as the user's", now(cx, m, "cv_user_efun") == 1)
                fs += ["cv_efun", "cv_user_efun", "cv_e_data"]
        cvframe(cx, m, fields=fs if ok else ())
        return
    kq, iq = z3.Int("q_k"), z3.Int("q_i")
    vab, sab = "cv_Vabstol" + sfx, "cv_Sabstol" + sfx
    fs = [itol, "cv_reltol" + sfx]
    if tol == "SS" and not sens:
        at = cx.real("abstol")
        neg = at < 0
        arg = at
        fs += [sab, min0n]
    elif tol == "SS":
        arg = cx.realarr("abstol", Ns)
        cx.cell(arg.rid, (0,))
        AT = lambda k: zr(cx.cell(arg.rid, (k,)))
        neg = z3.Exists([kq], z3.And(kq >= 0, kq < Ns, AT(kq) < 0))
        flagd = "cv_Sabstol%sMallocDone" % sfx
        cx.set(m.p, flagd, 1 if had else 0)
        fs += [flagd, "cv_lrw"]
        if had:
            so, mo = cx.realarr("old_Sabstol", Ns), cx.intarr("old_atolmin0", Ns)
            cx.cell(so.rid, (0,)); cx.cell(mo.rid, (0,))
            cx.set(m.p, sab, so); cx.set(m.p, min0n, mo)
            scratch += [so.rid, mo.rid]
        else:
            fs += [sab, min0n]
    else:
        if sens:
            arg = cx.fam("abstol", [Ns], nn)
            cx.fel(arg, (0, 0))
            AV = lambda k, i: zr(cx.fel(arg, (k, i)))
        else:
            arg = cx.vec("abstol", nn)
            cx.el(arg, 0)
            AV = lambda k, i: zr(cx.el(arg, i))
        MIN, WIT = least(cx, AV, nn, Ns)
        neg = z3.Exists([kq], z3.And(kq >= 0, kq < Ns, MIN(kq) < 0)) if sens else MIN(0) < 0
        flagd = "cv_Vabstol%sMallocDone" % sfx
        cx.set(m.p, flagd, 1 if had else 0)
        fs += [flagd, "cv_lrw", "cv_liw"]
        if sens:
            scratch.append(m.cvals.rid)
            if not had:
                def clones(E, a):
                    cx.same("one copy for every sensitivity", zi(a[0]), Ns)
                    cx.ob("copies shaped like the vectors of this integrator", a[1].rid == now(cx, m, "cv_tempvQ" if quad else "cv_tempv").rid)
                    return cx.fam("cloned", [Ns], nn)
                stub(cx, "N_VCloneVectorArray", clones, "N_VCloneVectorArray: new vectors of the same shape")
        if had:
            if sens:
                vo, mo = cx.fam("old_Vabstol", [Ns], nn), cx.intarr("old_atolmin0", Ns)
                cx.fel(vo, (0, 0)); cx.cell(mo.rid, (0,))
                cx.set(m.p, vab, vo); cx.set(m.p, min0n, mo)
                scratch += [harness.f_data[vo.rid], mo.rid]
            else:
                vo = cx.vec("old_Vabstol", nn)
                cx.el(vo, 0)
                cx.set(m.p, vab, vo)
                scratch.append(harness.v_data[vo.rid])
                fs.append(min0n)
        else:
            fs += [vab, min0n]
    cx.start()
    r = zi(cx.fn(name, [m.p, rt, arg], CVF))
    bad = z3.Or(rt < 0, neg)
    cx.ob("refused only when what it is for does not exist or a tolerance is negative", z3.If(missing != 0, r == missing, z3.Or(r == 0, r == -22)))
    cx.ob("negative tolerances are refused", z3.Implies(z3.And(missing == 0, r == 0), rt >= 0))
    cx.ob("a refusal has a reason", z3.Implies(r == -22, bad))
    kk = E.fint("k")
    K = [kk >= 0, kk < Ns] if sens else []
    ok = E.prove(r == 0, (), 3000)[0] is True
    if not ok:
        cvframe(cx, m, scratch=[])
        return
    ii = index(cx, nn)
    KI = z3.And(*K) if K else z3.BoolVal(True)
    cx.same("the kind of tolerances", now(cx, m, itol), CODE[tol])
    cx.same("the relative tolerance", now(cx, m, "cv_reltol" + sfx), rt)
    zero_is = lambda got, c: (zi(got) != 0) == c
    if tol == "SS" and not sens:
        cx.ob("negative absolute tolerances are refused", at >= 0)
        cx.same("the absolute tolerance", now(cx, m, sab), at)
        cx.ob("zero tolerances are remembered", zero_is(now(cx, m, min0n), at == 0))
    elif tol == "SS":
        cx.ob("negative absolute tolerances are refused", z3.Implies(KI, AT(kk) >= 0))
        p, q = now(cx, m, sab), now(cx, m, min0n)
        cx.ob("the absolute tolerances", z3.Implies(KI, zr(cx.read(cx.at(p, kk), 0)) == AT(kk)))
        cx.ob("zero tolerances are remembered", z3.Implies(KI, zero_is(cx.read(cx.at(q, kk), 0), AT(kk) == 0)))
        cx.ob("copies of their own", p.rid != arg.rid)
    else:
        cx.ob("negative absolute tolerances are refused", z3.Implies(KI, AV(kk, ii) >= 0))
        p = now(cx, m, vab)
        if sens:
            q = now(cx, m, min0n)
            cx.ob("zero tolerances are remembered", z3.Implies(KI, zero_is(cx.read(cx.at(q, kk), 0), MIN(kk) == 0)))
        else:
            cx.ob("zero tolerances are remembered", zero_is(now(cx, m, min0n), MIN(0) == 0))
        if had:
            got = zr(cx.fel(vo, (kk, ii), False)) if sens else zr(cx.el(vo, ii, False))
            cx.ob("the absolute tolerances", z3.Implies(KI, got == AV(kk, ii)))
        else:
            v = cx.read(cx.at(p, kk), 0) if sens else p
            d = cx.get(cx.get(v, "content"), "data")
            cx.ob("the absolute tolerances", z3.Implies(KI, zr(cx.read(cx.at(d, ii), 0)) == AV(kk, ii)))
    if which == "":
        cx.same("weights computed from the tolerances", now(cx, m, "cv_efun"), FnVal("cvEwtSet"))
        cx.ob("not the user's weights", zi(now(cx, m, "cv_user_efun")) == 0)
        fs += ["cv_efun", "cv_user_efun", "cv_e_data"]
    cvframe(cx, m, fields=fs, scratch=scratch)
for which in WHICH:
    for tol in ("SS", "SV", "EE", "WF"):
        if tol == "EE" and not which.endswith("Sens") or tol == "WF" and which:
            continue
        nm = "CVode%s%stolerances" % (which, tol)
        unit("%s, no integrator" % nm, lambda cx, w=which, t=tol: setter(cx, w, t, 0, True))
        alloc = tol == "SV" or tol == "SS" and which.endswith("Sens")
        for had in ((0, 1) if alloc else (0,)):
            unit(nm + ((", called before" if had else ", first call") if alloc else ""), lambda cx, w=which, t=tol, h=had: setter(cx, w, t, h))
