"""Dense SUNMatrix operations and the dense kernels on column arrays: specifications.
A matrix is a region with two coordinates (column, row); that cols[j] = data + j*M with disjoint columns is what the constructor unit proves."""
import z3
from . import eng, harness
from .eng import *
from .run import Unit

FILES = ("src/sunmatrix/dense/sunmatrix_dense.c", "src/sundials/sundials_matrix.c", "src/sundials/sundials_dense.c", "src/nvector/serial/nvector_serial.c", "src/sundials/sundials_nvector.c", "src/sundials/sundials_math.c", "src/sundials/sundials_direct.c")

class Mat:
    pass

def mat_template(cx):
    if getattr(cx, "_mtmpl", None) is None:
        E = cx.E
        co, mm = E.collect, eng.MALLOC_MAY_FAIL[0]
        E.collect, eng.MALLOC_MAY_FAIL[0] = False, False
        try:
            cx.template()
            A = cx.fn("SUNDenseMatrix", [z3.IntVal(1), z3.IntVal(1), cx._ctx])
        finally:
            E.collect, eng.MALLOC_MAY_FAIL[0] = co, mm
        cx._mtmpl = cx.get(A, "ops")
    return cx._mtmpl

def cols(cx, name, M, N):
    """array of N columns of M reals"""
    E = cx.E
    d = E.region(name, 2, M, "double", "ext")
    E.regions[d].dims = [N]
    c = E.region(name + "_cols", 1, N, "double *", "ext")
    E.setbase(c, (), lambda q: Ptr(d, (), (q[0], 0), "R", "double"))
    return d, Ptr(c, (), (0,), "R", "double *")

def mat(cx, name, M, N):
    ops = mat_template(cx)
    m = Mat()
    m.M, m.N = M, N
    m.data, m.cols = cols(cx, name, M, N)
    L = z3.Int(name + "_ldata")
    c = cx.struct(name + "_content", "struct _SUNMatrixContent_Dense", dict(M=M, N=N, ldata=L, cols=m.cols))
    m.p = cx.struct(name + "_mat", "struct _generic_SUNMatrix", dict(content=c, ops=ops, sunctx=cx._ctx))
    m.c = c
    return m
def el(cx, m, j, i):
    return zr(cx.cell(m.data if isinstance(m, Mat) else m, (j, i)))

UNITS = []
def unit(id, body, **k):
    UNITS.append(Unit(id, FILES, body, **k))

def dims(cx, sfx=""):
    return cx.N("M" + sfx), cx.N("N" + sfx)

# ---------------------------------------------------------------- SUNMatrix operations
def b_zero(cx):
    ops = mat_template(cx)
    M, N = dims(cx)
    L = cx.N("L")
    d = cx.realarr("A", L)
    c = cx.struct("A_content", "struct _SUNMatrixContent_Dense", dict(M=M, N=N, ldata=L, data=d))
    A = cx.struct("A_mat", "struct _generic_SUNMatrix", dict(content=c, ops=ops, sunctx=cx._ctx))
    cx.start()
    r = cx.fn("SUNMatZero", [A])
    cx.same("returns success", r, 0)
    cx.frame({d.rid: lambda q: Fraction(0)})
unit("SUNMatZero", b_zero)

def b_copy(cx, same):
    M, N = dims(cx)
    A = mat(cx, "A", M, N)
    B = A if same else mat(cx, "B", M, N)
    cx.start()
    r = cx.fn("SUNMatCopy", [A.p, B.p])
    cx.same("returns success", r, 0)
    cx.frame({B.data: lambda q: el(cx, A, q[0], q[1])})
unit("SUNMatCopy(distinct)", lambda cx: b_copy(cx, False))
unit("SUNMatCopy(A=B)", lambda cx: b_copy(cx, True))

def b_sa(cx, same):
    M, N = dims(cx)
    A = mat(cx, "A", M, N)
    B = A if same else mat(cx, "B", M, N)
    c = cx.real("c")
    cx.start()
    r = cx.fn("SUNMatScaleAdd", [c, A.p, B.p])
    cx.same("returns success", r, 0)
    cx.frame({A.data: lambda q: c * el(cx, A, q[0], q[1]) + el(cx, B, q[0], q[1])})
unit("SUNMatScaleAdd(distinct)", lambda cx: b_sa(cx, False))
unit("SUNMatScaleAdd(A=B)", lambda cx: b_sa(cx, True))

def b_sai(cx):
    M, N = dims(cx)
    A = mat(cx, "A", M, N)
    c = cx.real("c")
    cx.start()
    r = cx.fn("SUNMatScaleAddI", [c, A.p])
    cx.same("returns success", r, 0)
    cx.frame({A.data: lambda q: c * el(cx, A, q[0], q[1]) + z3.If(zi(q[0]) == zi(q[1]), zr(1), zr(0))})
unit("SUNMatScaleAddI", b_sai)

def b_mv(cx):
    M, N = dims(cx)
    A = mat(cx, "A", M, N)
    x, y = cx.vec("x", N), cx.vec("y", M)
    cx.start()
    r = cx.fn("SUNMatMatvec", [A.p, x, y])
    cx.same("returns success", r, 0)
    cx.frame({harness.v_data[y.rid]: lambda q: cx.E.sumof(lambda j: el(cx, A, j, q[0]) * zr(cx.el(x, j)), 0, N)})
unit("SUNMatMatvec", b_mv)

def b_mvalias(cx):
    M, N = dims(cx)
    A = mat(cx, "A", M, N)
    x = cx.vec("x", N)
    cx.start()
    r = cx.fn("SUNMatMatvec", [A.p, x, x])
    cx.ob("refuses x = y", bsimp(zi(r) != 0))
    cx.frame()
unit("SUNMatMatvec(x=y)", b_mvalias)

def b_bad(cx, op):
    M, N = dims(cx)
    M2, N2 = dims(cx, "2")
    cx.E.assume(z3.Or(M != M2, N != N2))
    A, B = mat(cx, "A", M, N), mat(cx, "B", M2, N2)
    cx.start()
    r = cx.fn(op, ([cx.real("c")] if op == "SUNMatScaleAdd" else []) + [A.p, B.p])
    cx.ob("a shape mismatch is refused", bsimp(zi(r) != 0))
    cx.frame()
for op in ("SUNMatCopy", "SUNMatScaleAdd"):
    unit("%s(shape mismatch)" % op, lambda cx, op=op: b_bad(cx, op))

def b_acc(cx):
    M, N = dims(cx)
    A = mat(cx, "A", M, N)
    j = z3.Int("j")
    cx.E.assume(j >= 0); cx.E.assume(j < N)
    cx.start()
    cx.same("rows", cx.fn("SUNDenseMatrix_Rows", [A.p]), M)
    cx.same("columns", cx.fn("SUNDenseMatrix_Columns", [A.p]), N)
    cx.same("ldata", cx.fn("SUNDenseMatrix_LData", [A.p]), z3.Int("A_ldata"))
    cx.same("column j", cx.fn("SUNDenseMatrix_Column", [A.p, j]), Ptr(A.data, (), (j, 0), "R", "double"))
    cx.same("cols", cx.fn("SUNDenseMatrix_Cols", [A.p]), A.cols)
    cx.frame()
unit("SUNDenseMatrix accessors", b_acc)

# ---------------------------------------------------------------- kernels
def b_kcopy(cx):
    M, N = dims(cx)
    a, ac = cols(cx, "a", M, N)
    b, bc = cols(cx, "b", M, N)
    cx.start()
    cx.fn("SUNDlsMat_denseCopy", [ac, bc, M, N])
    cx.frame({b: lambda q: el(cx, a, q[0], q[1])})
unit("SUNDlsMat_denseCopy", b_kcopy)
def b_kscale(cx):
    M, N = dims(cx)
    a, ac = cols(cx, "a", M, N)
    c = cx.real("c")
    cx.start()
    cx.fn("SUNDlsMat_denseScale", [c, ac, M, N])
    cx.frame({a: lambda q: c * el(cx, a, q[0], q[1])})
unit("SUNDlsMat_denseScale", b_kscale)
def b_kaddi(cx):
    M, N = dims(cx)
    cx.E.assume(M >= N)
    a, ac = cols(cx, "a", M, N)
    cx.start()
    cx.fn("SUNDlsMat_denseAddIdentity", [ac, N])
    cx.frame({a: lambda q: el(cx, a, q[0], q[1]) + z3.If(zi(q[0]) == zi(q[1]), zr(1), zr(0))})
unit("SUNDlsMat_denseAddIdentity", b_kaddi)
def b_kmv(cx):
    M, N = dims(cx)
    a, ac = cols(cx, "a", M, N)
    x, y = cx.realarr("x", N), cx.realarr("y", M)
    cx.start()
    cx.fn("SUNDlsMat_denseMatvec", [ac, x, y, M, N])
    cx.frame({y.rid: lambda q: cx.E.sumof(lambda j: el(cx, a, j, q[0]) * zr(cx.cell(x.rid, (j,))), 0, N)})
unit("SUNDlsMat_denseMatvec", b_kmv)

# ---------------------------------------------------------------- life cycle
def heap_live(cx):
    E = cx.E
    return [R for rid, R in E.regions.items() if R.kind in ("heap", "heap0") and R.birth >= cx.mark and rid not in E.st.dead]
def noleak(cx, what):
    for R in heap_live(cx):
        cx.ob("%s: %s is released" % (what, R.name), False, "leak")
def isnull(cx, p):
    return cx.E.branch(cx.E.compare("==", p, NULL))

def check_new(cx, A, M, N, ctx):
    E = cx.E
    c = cx.get(A, "content")
    c = Ptr(c.rid, c.field, c.coords, c.dim, "struct _SUNMatrixContent_Dense")
    cx.same("M", cx.get(c, "M"), M)
    cx.same("N", cx.get(c, "N"), N)
    cx.same("ldata = M*N", cx.get(c, "ldata"), M * N)
    cx.same("context", cx.get(A, "sunctx"), ctx)
    d, cl = cx.get(c, "data"), cx.get(c, "cols")
    t = E.fint("t")
    E.assume(t >= 0); E.assume(t < M * N)
    cx.same("data starts at zero", cx.read(d, t), Fraction(0))
    j = E.fint("j")
    E.assume(j >= 0); E.assume(j < N)
    cx.same("cols[j] = data + j*M", cx.read(cl, j), E.padd(d, j * M))
    E.assume(j * M + M <= M * N)
    ops = cx.get(A, "ops")
    for f, fn in dict(getid="SUNMatGetID_Dense", clone="SUNMatClone_Dense", destroy="SUNMatDestroy_Dense", zero="SUNMatZero_Dense", copy="SUNMatCopy_Dense", scaleadd="SUNMatScaleAdd_Dense", scaleaddi="SUNMatScaleAddI_Dense", matvec="SUNMatMatvec_Dense", space="SUNMatSpace_Dense").items():
        v = cx.get(ops, f)
        cx.ob("operation %s is attached" % f, isinstance(v, FnVal) and v.name == fn)
    v = cx.get(ops, "matvecsetup")
    cx.same("no matvecsetup", v, NULL)

def b_new(cx):
    M, N = z3.Int("M"), z3.Int("N")
    ctx = cx.sunctx()
    cx.start()
    A = cx.fn("SUNDenseMatrix", [M, N, ctx])
    cx.frame()
    if isnull(cx, A):
        noleak(cx, "failed construction")
        return
    cx.ob("only positive shapes are built", z3.And(M > 0, N > 0))
    check_new(cx, A, M, N, ctx)
    cx.fn("SUNMatDestroy", [A])
    noleak(cx, "destruction")
    cx.frame()
unit("SUNDenseMatrix; SUNMatDestroy", b_new)
def b_newnoctx(cx):
    M, N = z3.Int("M"), z3.Int("N")
    cx.start()
    A = cx.fn("SUNDenseMatrix", [M, N, NULL])
    cx.same("no context: no matrix", A, NULL)
    noleak(cx, "refused construction")
unit("SUNDenseMatrix(no context)", b_newnoctx)
def b_clone(cx):
    M, N = z3.Int("M"), z3.Int("N")
    cx.E.assume(M > 0); cx.E.assume(N > 0)
    A = mat(cx, "A", M, N)
    cx.start()
    B = cx.fn("SUNMatClone", [A.p])
    cx.frame()
    if isnull(cx, B):
        noleak(cx, "failed clone")
        return
    check_new(cx, B, M, N, cx._ctx)
unit("SUNMatClone", b_clone)
