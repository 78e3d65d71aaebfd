"""Replay drivers for the operator tables (Fortran text)."""

# name: value, derivative (Fortran, argument x), sampling ranges, special points
U = {
 "sin": ("sin(x)", "cos(x)", [(-6, 6)], []), "cos": ("cos(x)", "-sin(x)", [(-6, 6)], []),
 "tan": ("tan(x)", "1d0/cos(x)**2", [(-1.4, 1.4), (2, 4)], []),
 "asin": ("asin(x)", "1d0/sqrt(1d0-x*x)", [(-.95, .95)], [0.]), "acos": ("acos(x)", "-1d0/sqrt(1d0-x*x)", [(-.95, .95)], [0.]),
 "atan": ("atan(x)", "1d0/(1d0+x*x)", [(-5, 5)], [0., 1.]),
 "sinh": ("sinh(x)", "cosh(x)", [(-4, 4)], [0.]), "cosh": ("cosh(x)", "sinh(x)", [(-4, 4)], [0.]),
 "tanh": ("tanh(x)", "1d0/cosh(x)**2", [(-4, 4)], [0.]),
 "asinh": ("asinh(x)", "1d0/sqrt(x*x+1d0)", [(-5, 5)], [0.]), "acosh": ("acosh(x)", "1d0/sqrt(x*x-1d0)", [(1.05, 9)], []),
 "atanh": ("atanh(x)", "1d0/(1d0-x*x)", [(-.95, .95)], [0.]),
 "exp": ("exp(x)", "exp(x)", [(-5, 5)], [0., 1.]), "log": ("log(x)", "1d0/x", [(.05, 9)], [1.]),
 "sqrt": ("sqrt(x)", "0.5d0/sqrt(x)", [(.05, 9)], [1.]), "square": ("x*x", "2d0*x", [(-5, 5)], [0.]),
 "inv": ("1d0/x", "-1d0/(x*x)", [(-5, -.1), (.1, 5)], [1.]), "inv_square": ("1d0/(x*x)", "-2d0/(x*x*x)", [(-5, -.1), (.1, 5)], [1.]),
 "inv_sqrt": ("1d0/sqrt(x)", "-0.5d0/(x*sqrt(x))", [(.05, 9)], [1.]),
 "logit": ("log(x/(1d0-x))", "1d0/(x*(1d0-x))", [(.05, .95)], [.5]),
 "inv_logit": ("1d0/(1d0+exp(-x))", "exp(-x)/(1d0+exp(-x))**2", [(-30, 30), (-3, 3), (-700, -650)], [0., -709.]),
 "erf": ("erf(x)", "2d0/sqrt(acos(-1d0))*exp(-x*x)", [(-2.5, 2.5)], [0.]), "erfc": ("erfc(x)", "-2d0/sqrt(acos(-1d0))*exp(-x*x)", [(-2.5, 2.5)], [0.]),
 "abs": ("abs(x)", "sign(1d0, x)", [(-5, -.1), (.1, 5)], []),
 "log_gamma": ("log_gamma(x)", "psi_ref(x)", [(.2, 12), (.55, 3), (3, 30)], [1., 2., .5, 3.]),
}

HEAD = """program drv
  use fazang
  use chk
  implicit none
  call args()
  select case (grp)
%s
  case default
     write(*, '(a)') "END"
  end select
contains
  subroutine sweep(z)
    type(var), intent(in) :: z
    integer :: i
    do i = callstack%%head - 1, z%%vi, -1
       call callstack%%varis(i)%%chain()
    end do
  end subroutine sweep
  real(real64) function psi_ref(x) result(p)
    real(real64), intent(in) :: x
    real(real64) :: t, w
    t = x
    p = 0d0
    do while (t < 25d0)
       p = p - 1d0 / t
       t = t + 1d0
    end do
    w = 1d0 / (t * t)
    p = p + log(t) - 0.5d0 / t - w * (1d0/12d0 - w * (1d0/120d0 - w * (1d0/252d0 - w * (1d0/240d0 - w * (1d0/132d0)))))
  end function psi_ref
"""

def unary(names):
    cases, subs = [], []
    for g, n in enumerate(names, 1):
        v, d, rng, sp = U[n]
        cases.append("  case (%d)\n     call t_%s()" % (g, n))
        pts = "\n".join("    call one_%s(%.17fd0)" % (n, x) for x in sp)
        rn = "\n".join("       call one_%s(uni(%.17fd0, %.17fd0))" % (n, a, b) for a, b in rng)
        arr = rng[0]
        subs.append("""
  subroutine t_%(n)s()
    integer :: i
%(pts)s
    do i = 1, 12 * mult
%(rn)s
    end do
    call arr_%(n)s()
    call done()
    write(*, '(a)') "BOUND %(n)s at sampled arguments"
  end subroutine t_%(n)s
  subroutine one_%(n)s(x)
    real(real64), intent(in) :: x
    real(real64) :: a, px, po, pf, fx, dfx
    type(var) :: o, v, z, w
    call casename("%(n)s(" // r2s(x) // ")")
    o = var(1.5d0)
    v = var(x)
    fx = %(v)s
    dfx = %(d)s
    z = %(n)s(v)
    call expect("%(n)s value at x=" // r2s(x), z%%val(), fx, 1d-9)
    call expect("argument value after %(n)s at x=" // r2s(x), v%%val(), x, 0d0)
    if (z%%vi /= v%%vi) call expect("adjoint of the fresh result of %(n)s at x=" // r2s(x), z%%adj(), 0d0, 0d0)
    w = sin(v)
    a = uni(-2d0, 2d0)
    px = uni(-2d0, 2d0)
    po = uni(-2d0, 2d0)
    call callstack%%varis(o%%vi)%%set_adj(po)
    call callstack%%varis(v%%vi)%%set_adj(px)
    if (z%%vi == v%%vi) then
       call callstack%%varis(v%%vi)%%set_adj(px + a)
    else
       call callstack%%varis(z%%vi)%%set_adj(a)
       call sweep(z)
    end if
    call expect("derivative of %(n)s at x=" // r2s(x) // " adjoint " // r2s(a), v%%adj(), px + a * dfx, 1d-8)
    call expect("other adjoint after sweeping %(n)s at x=" // r2s(x), o%%adj(), po, 0d0)
    call expect("value after sweeping %(n)s at x=" // r2s(x), z%%val(), fx, 1d-9)
    call expect("argument value after sweeping %(n)s at x=" // r2s(x), v%%val(), x, 0d0)
    call set_zero_all_adj()
    call z%%grad()
    call expect("grad of %(n)s at x=" // r2s(x), v%%adj(), dfx, 1d-8)
    call expect("unrelated adjoint after grad of %(n)s at x=" // r2s(x), o%%adj(), 0d0, 0d0)
  end subroutine one_%(n)s
  subroutine arr_%(n)s()
    type(var) :: v(5), z(5), s
    real(real64) :: x
    integer :: i
    call casename("%(n)s of an array")
    do i = 1, 5
       v(i) = var(uni(%(lo).17fd0, %(hi).17fd0))
    end do
    v(4) = v(2)
    z = %(n)s(v)
    call set_zero_all_adj()
    s = z(1) + 2d0 * z(2) + 3d0 * z(3) + 4d0 * z(4) + 5d0 * z(5)
    call s%%grad()
    do i = 1, 5
       x = v(i)%%val()
       call expect("%(n)s of array element x=" // r2s(x), z(i)%%val(), %(v)s, 1d-9)
       if (i == 2 .or. i == 4) then
          call expect("derivative of repeated array element in %(n)s x=" // r2s(x), v(i)%%adj(), 6d0 * (%(d)s), 1d-8)
       else
          call expect("derivative of array element in %(n)s x=" // r2s(x), v(i)%%adj(), i * (%(d)s), 1d-8)
       end if
    end do
  end subroutine arr_%(n)s
""" % dict(n=n, v=v, d=d, pts=pts, rn=rn, lo=arr[0], hi=arr[1]))
    return HEAD % "\n".join(cases) + "".join(subs) + "end program drv\n"

B = {
 "add": ("a + b", "a + b", "1d0", "1d0", (-5, 5), (-5, 5), [(1., 0.), (0., 1.), (2., -2.)]),
 "sub": ("a - b", "a - b", "1d0", "-1d0", (-5, 5), (-5, 5), [(1., 0.), (0., 1.), (2., 2.)]),
 "mul": ("a * b", "a * b", "b", "a", (-5, 5), (-5, 5), [(3., 1.), (1., 3.), (0., 2.), (2., 0.), (3., -1.)]),
 "div": ("a / b", "a / b", "1d0/b", "-a/(b*b)", (-5, 5), (.2, 5), [(3., 1.), (1., 3.), (0., 2.), (2., -4.)]),
 "pow": ("a ** b", "a ** b", "b*a**(b-1d0)", "log(a)*a**b", (.2, 5), (-3, 3),
         [(3., 1.), (3., 2.), (3., .5), (3., -1.), (3., -.5), (3., -2.), (3., 0.), (1., 2.), (3., 3.), (1., 1.)]),
 "hypot": ("hypot(a, b)", "sqrt(a*a+b*b)", "a/sqrt(a*a+b*b)", "b/sqrt(a*a+b*b)", (-5, 5), (-5, 5), [(3., 0.), (0., 3.), (-3., 0.), (0., -3.), (3., 4.)]),
}

def binary():
    cases, subs = [], []
    g = 0
    for n, (ex, v, da, db, ra, rb, sp) in B.items():
        for kind in ("vv", "vd", "dv", "same", "arr"):
            g += 1
            nm = "%s_%s" % (n, kind)
            cases.append("  case (%d)\n     call t_%s()" % (g, nm))
            pts = "\n".join("    call one_%s(%.17fd0, %.17fd0)" % (nm, x, y) for x, y in sp)
            subs.append("""
  subroutine t_%(nm)s()
    integer :: i
%(pts)s
    do i = 1, 15 * mult
       call one_%(nm)s(uni(%(a0).17fd0, %(a1).17fd0), uni(%(b0).17fd0, %(b1).17fd0))
    end do
    call done()
    write(*, '(a)') "BOUND %(nm)s at sampled and neutral operands"
  end subroutine t_%(nm)s
""" % dict(nm=nm, pts=pts, a0=ra[0], a1=ra[1], b0=rb[0], b1=rb[1]))
            if kind in ("vv", "vd", "dv"):
                e = ex
                from re import sub as rs
                e = rs(r"\ba\b", "va" if kind[0] == "v" else "a", e)
                e = rs(r"\bb\b", "vb" if kind[1] == "v" else "b", e)
                chkA = 'call expect("%s partial wrt a at " // r2s(a) // "," // r2s(b), va%%adj(), %s + g * (%s), 1d-8)' % (nm, "pa", da if kind[0] == "v" else "0d0")
                chkB = 'call expect("%s partial wrt b at " // r2s(a) // "," // r2s(b), vb%%adj(), %s + g * (%s), 1d-8)' % (nm, "pb", db if kind[1] == "v" else "0d0")
                subs.append("""
  subroutine one_%(nm)s(a, b)
    real(real64), intent(in) :: a, b
    real(real64) :: g, pa, pb, po
    type(var) :: o, va, vb, z, w, ya, yb
    call casename("%(nm)s(" // r2s(a) // "," // r2s(b) // ")")
    o = var(1.5d0)
    va = var(a)
    vb = var(b)
    ya = sin(va)
    yb = sin(vb)
    z = %(e)s
    call expect("%(nm)s value at " // r2s(a) // "," // r2s(b), z%%val(), %(v)s, 1d-9)
    w = exp(z) + va + vb
    g = uni(0.5d0, 2d0)
    pa = uni(-2d0, 2d0)
    pb = uni(-2d0, 2d0)
    po = uni(-2d0, 2d0)
    call callstack%%varis(o%%vi)%%set_adj(po)
    call callstack%%varis(va%%vi)%%set_adj(pa)
    call callstack%%varis(vb%%vi)%%set_adj(pb)
    if (z%%vi == va%%vi) then
       call callstack%%varis(va%%vi)%%set_adj(pa + g)
    else if (z%%vi == vb%%vi) then
       call callstack%%varis(vb%%vi)%%set_adj(pb + g)
    else
       call callstack%%varis(z%%vi)%%set_adj(g)
    end if
    if (z%%vi /= va%%vi .and. z%%vi /= vb%%vi) call sweep(z)
    %(chkA)s
    %(chkB)s
    call expect("other adjoint after sweeping %(nm)s", o%%adj(), po, 0d0)
    call set_zero_all_adj()
    call z%%grad()
    g = 1d0
    pa = 0d0
    pb = 0d0
    %(chkA)s
    %(chkB)s
    call set_zero_all_adj()
    call ya%%grad()
    call expect("gradient of sin(a) after recording %(nm)s at " // r2s(a) // "," // r2s(b), va%%adj(), cos(a), 1d-9)
    call set_zero_all_adj()
    call yb%%grad()
    call expect("gradient of sin(b) after recording %(nm)s at " // r2s(a) // "," // r2s(b), vb%%adj(), cos(b), 1d-9)
    call expect("value of a after %(nm)s", va%%val(), a, 0d0)
    call expect("value of b after %(nm)s", vb%%val(), b, 0d0)
    ! the operand is itself a result: its own rule must survive
    call set_zero_all_adj()
    va = sin(var(a)) + 3d0
    vb = cos(var(b)) + 4d0
    block
      type(var) :: xa, xb
      real(real64) :: a, b
      xa = var(0.7d0)
      xb = var(0.3d0)
      va = 2d0 + exp(xa)
      vb = 2d0 + exp(xb)
      a = va%%val()
      b = vb%%val()
      z = %(e)s
      call set_zero_all_adj()
      call z%%grad()
      if (%(ka)s) call expect("%(nm)s chained wrt a at " // r2s(a) // "," // r2s(b), xa%%adj(), (%(da)s) * exp(0.7d0), 1d-8)
      if (%(kb)s) call expect("%(nm)s chained wrt b at " // r2s(a) // "," // r2s(b), xb%%adj(), (%(db)s) * exp(0.3d0), 1d-8)
    end block
    block
      type(var) :: xa, xb
      xa = var(a)
      xb = var(b)
      va = neg1(xa)
      vb = neg1(xb)
      z = %(e)s
      call set_zero_all_adj()
      call z%%grad()
      if (%(ka)s) call expect("%(nm)s of a computed operand wrt a at " // r2s(a) // "," // r2s(b), xa%%adj(), %(da)s, 1d-8)
      if (%(kb)s) call expect("%(nm)s of a computed operand wrt b at " // r2s(a) // "," // r2s(b), xb%%adj(), %(db)s, 1d-8)
    end block
  end subroutine one_%(nm)s
""" % dict(nm=nm, e=e, v=v, chkA=chkA, chkB=chkB, da=da, db=db, ka=".true." if kind[0] == "v" else ".false.", kb=".true." if kind[1] == "v" else ".false."))
            elif kind == "same":
                from re import sub as rs
                e = rs(r"\bb\b", "va", rs(r"\ba\b", "va", ex))
                subs.append("""
  subroutine one_%(nm)s(a0, b0)
    real(real64), intent(in) :: a0, b0
    real(real64) :: a, b
    type(var) :: va, z
    a = abs(a0)
    if (a == 0d0) a = 1d0
    b = a
    call casename("%(nm)s(" // r2s(a) // ")")
    va = var(a)
    z = %(e)s
    call expect("%(nm)s value at " // r2s(a), z%%val(), %(v)s, 1d-9)
    call set_zero_all_adj()
    call z%%grad()
    call expect("%(nm)s derivative at " // r2s(a), va%%adj(), (%(da)s) + (%(db)s), 1d-8)
  end subroutine one_%(nm)s
""" % dict(nm=nm, e=e, v=v, da=da, db=db))
            else:
                from re import sub as rs
                e1 = rs(r"\bb\b", "vb", rs(r"\ba\b", "va", ex))
                e2 = rs(r"\bb\b", "b", rs(r"\ba\b", "va", ex))
                e3 = rs(r"\bb\b", "vb", rs(r"\ba\b", "a", ex))
                e4 = rs(r"\bb\b", "vb(1)", rs(r"\ba\b", "va", ex))
                subs.append("""
  subroutine one_%(nm)s(a, b)
    real(real64), intent(in) :: a, b
    type(var) :: va(3), vb(3), z(3), s
    integer :: i
    call casename("%(nm)s array(" // r2s(a) // "," // r2s(b) // ")")
    do i = 1, 3
       va(i) = var(a)
       vb(i) = var(b)
    end do
    z = %(e1)s
    call set_zero_all_adj()
    s = z(1) + 2d0 * z(2) + 3d0 * z(3)
    call s%%grad()
    do i = 1, 3
       call expect("%(nm)s array value at " // r2s(a) // "," // r2s(b), z(i)%%val(), %(v)s, 1d-9)
       call expect("%(nm)s array vv partial a at " // r2s(a) // "," // r2s(b), va(i)%%adj(), i * (%(da)s), 1d-8)
       call expect("%(nm)s array vv partial b at " // r2s(a) // "," // r2s(b), vb(i)%%adj(), i * (%(db)s), 1d-8)
    end do
    z = %(e2)s
    call set_zero_all_adj()
    s = z(1) + 2d0 * z(2) + 3d0 * z(3)
    call s%%grad()
    do i = 1, 3
       call expect("%(nm)s array vd partial a at " // r2s(a) // "," // r2s(b), va(i)%%adj(), i * (%(da)s), 1d-8)
    end do
    z = %(e3)s
    call set_zero_all_adj()
    s = z(1) + 2d0 * z(2) + 3d0 * z(3)
    call s%%grad()
    do i = 1, 3
       call expect("%(nm)s array dv partial b at " // r2s(a) // "," // r2s(b), vb(i)%%adj(), i * (%(db)s), 1d-8)
    end do
    z = %(e4)s
    call set_zero_all_adj()
    s = z(1) + 2d0 * z(2) + 3d0 * z(3)
    call s%%grad()
    call expect("%(nm)s array-scalar partial b at " // r2s(a) // "," // r2s(b), vb(1)%%adj(), 6d0 * (%(db)s), 1d-8)
  end subroutine one_%(nm)s
""" % dict(nm=nm, e1=e1, e2=e2, e3=e3, e4=e4, v=v, da=da, db=db))
    g += 1
    cases.append("  case (%d)\n     call t_sign()" % g)
    subs.append("""
  subroutine t_sign()
    type(var) :: v, z, va(3), za(3)
    integer :: i
    v = var(2.5d0)
    z = -v
    call expect("unary minus value", z%val(), -2.5d0, 0d0)
    call set_zero_all_adj()
    call z%grad()
    call expect("unary minus derivative", v%adj(), -1d0, 0d0)
    z = +v
    call expect("unary plus value", z%val(), 2.5d0, 0d0)
    call set_zero_all_adj()
    call z%grad()
    call expect("unary plus derivative", v%adj(), 1d0, 0d0)
    v = sin(v)
    z = +v
    z = (-z) * 2d0
    call set_zero_all_adj()
    call z%grad()
    call expect("sign of a computed operand", v%adj(), -2d0, 1d-12)
    do i = 1, 3
       va(i) = var(1d0 * i)
    end do
    za = -va
    z = sum(za)
    call set_zero_all_adj()
    call z%grad()
    do i = 1, 3
       call expect("unary minus of an array", va(i)%adj(), -1d0, 0d0)
       call expect("unary minus of an array, value", za(i)%val(), -1d0 * i, 0d0)
    end do
    call done()
  end subroutine t_sign
""")
    tail = """
  type(var) function neg1(x) result(z)
    type(var), intent(in) :: x
    z = 2d0 * x
    z = z - x
  end function neg1
end program drv
"""
    return HEAD % "\n".join(cases) + "".join(subs) + tail

def c21():
    t = unary(["log_gamma"])
    t = t.replace("  use fazang\n", "  use fazang\n  use fazang_digamma_mod\n", 1)
    t = t.replace("  case default\n", "  case (2)\n     call dig()\n  case default\n", 1)
    t = t.replace("end program drv\n", """
  subroutine dig()
    integer :: i, n
    real(real64) :: f(10)
    f = [0.03d0, 0.1d0, 0.2d0, 0.25d0, 0.3d0, 0.45d0, 0.5d0, 0.62d0, 0.75d0, 0.9d0]
    do n = -12, 12
       do i = 1, 10
          call one(n + f(i))
          call one(n + uni(.02d0, .98d0))
       end do
       if (n > 0) call one(1d0 * n)
    end do
    do i = 1, 40 * mult
       call one(uni(0.01d0, 0.5d0))
       call one(uni(0.5d0, 3d0))
       call one(uni(3d0, 40d0))
       call one(-int(uni(1d0, 300d0)) - uni(.05d0, .95d0))
       call one(10d0 ** uni(1d0, 14d0))
       call one(10d0 ** uni(-12d0, -1d0))
       call one(-10d0 ** uni(-12d0, -1.5d0))
    end do
    call done()
    write(*, '(a)') "BOUND digamma at sampled arguments of both signs"
  end subroutine dig
  subroutine one(x)
    real(real64), intent(in) :: x
    real(real64) :: r, f, pi
    pi = acos(-1d0)
    call casename("digamma(" // r2s(x) // ")")
    if (x < 0.5d0) then
       f = x - anint(x)
       if (abs(f) < 0.5d0) then
          r = psi_ref(1d0 - x) - pi * cos(pi * f) / sin(pi * f)
       else
          r = psi_ref(1d0 - x)
       end if
    else
       r = psi_ref(x)
    end if
    call expect("digamma(" // r2s(x) // ")", digamma(x), r, 1d-9)
  end subroutine one
end program drv
""")
    return t

GEN = {"C21": c21, "C01": lambda: unary([n for n in U if n != "log_gamma"]), "C02": binary}
