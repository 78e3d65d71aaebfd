From 8c71d1139a6ec9899dfbd5d6ac1fc73fae97839a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:01 +0000
Subject: [PATCH 01/27] fix: do not replace the operand's chain when an
 operator returns the operand itself

x + 0, x - 0, x * 1, x / 1 and hypot(x, 0) return an alias of x, and
set_chain on that alias overwrote the derivative rule x was created with.
---
 src/add.F90   | 4 ++--
 src/div.F90   | 2 +-
 src/hypot.F90 | 4 ++--
 src/mul.F90   | 4 ++--
 src/sub.F90   | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/add.F90 b/src/add.F90
index 036db38..0bfcc1e 100644
--- a/src/add.F90
+++ b/src/add.F90
@@ -46,10 +46,10 @@ contains
     type(var) :: s
     if ( v2 .ne. 0.d0 ) then
        s = var(v1%val() + v2, [v1])
+       call s%set_chain(chain_add_vd)
     else
        s = v1
     end if
-    call s%set_chain(chain_add_vd)
   end function add_vd
 
   impure elemental function add_dv(v1, v2) result(s)
@@ -58,10 +58,10 @@ contains
     type(var) :: s
     if ( v1 .ne. 0.d0 ) then
        s = var(v1 + v2%val(), [v2])
+       call s%set_chain(chain_add_vd)
     else
        s = v2
     end if
-    call s%set_chain(chain_add_vd)
   end function add_dv
 
   impure elemental function pos(v) result(s)
diff --git a/src/div.F90 b/src/div.F90
index 8085ea0..2b2e180 100644
--- a/src/div.F90
+++ b/src/div.F90
@@ -47,10 +47,10 @@ contains
     type(var) :: s
     if ( d .ne. 1.d0 ) then
        s = var(v%val() / d, [v], [d])
+       call s%set_chain(chain_div_vd)
     else
        s = v
     end if
-    call s%set_chain(chain_div_vd)
   end function div_vd
 
   subroutine chain_div_dv(this)
diff --git a/src/hypot.F90 b/src/hypot.F90
index 84da526..2a53372 100644
--- a/src/hypot.F90
+++ b/src/hypot.F90
@@ -32,10 +32,10 @@ contains
     type(var) :: s
     if ( v2 .ne. 0.d0 ) then
        s = var(hypot(v1%val(), v2), [v1])
+       call s%set_chain(chain_hypot)
     else
        s = abs(v1)
     end if
-    call s%set_chain(chain_hypot)
   end function hypot_vd
 
   impure elemental function hypot_dv(v1, v2) result(s)
@@ -44,10 +44,10 @@ contains
     type(var) :: s
     if ( v1 .ne. 0.d0 ) then
        s = var(hypot(v2%val(), v1), [v2])
+       call s%set_chain(chain_hypot)
     else
        s = v2
     end if
-    call s%set_chain(chain_hypot)
   end function hypot_dv
 
 end module fazang_hypot_v_mod
diff --git a/src/mul.F90 b/src/mul.F90
index 159f36f..5c38b92 100644
--- a/src/mul.F90
+++ b/src/mul.F90
@@ -46,10 +46,10 @@ contains
     type(var) :: s
     if ( d .ne. 1.d0 ) then
        s = var(v%val() * d, [v], [d])
+       call s%set_chain(chain_mul_vd)
     else
        s = v
     end if
-    call s%set_chain(chain_mul_vd)
   end function mul_vd
 
   impure elemental function mul_dv(d, v) result(s)
@@ -58,10 +58,10 @@ contains
     type(var) :: s
     if ( d .ne. 1.d0 ) then
        s = var(v%val() * d, [v], [d])
+       call s%set_chain(chain_mul_vd)
     else
        s = v
     end if
-    call s%set_chain(chain_mul_vd)
   end function mul_dv
 
 end module fazang_mul_mod
diff --git a/src/sub.F90 b/src/sub.F90
index b7e4add..678f00b 100644
--- a/src/sub.F90
+++ b/src/sub.F90
@@ -45,10 +45,10 @@ contains
     type(var) :: s
     if ( v2 .ne. 0.d0 ) then
        s = var(v1%val() - v2, [v1])
+       call s%set_chain(chain_sub_vd)
     else
        s = v1
     end if
-    call s%set_chain(chain_sub_vd)
   end function sub_vd
 
   subroutine chain_sub_dv(this)
-- 
2.43.0


From 28eb729b6f9726e2031a9b8c2fce4ffd7985fed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:01 +0000
Subject: [PATCH 02/27] fix: hypot(0, v) is |v|, not v

---
 src/hypot.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypot.F90 b/src/hypot.F90
index 2a53372..e543101 100644
--- a/src/hypot.F90
+++ b/src/hypot.F90
@@ -46,7 +46,7 @@ contains
        s = var(hypot(v2%val(), v1), [v2])
        call s%set_chain(chain_hypot)
     else
-       s = v2
+       s = abs(v2)
     end if
   end function hypot_dv
 
-- 
2.43.0


From a898b91df75f91bfdebf886d159275c735c7b59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:01 +0000
Subject: [PATCH 03/27] fix: inv_square returned 1 for every argument

---
 src/inv_square.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inv_square.F90 b/src/inv_square.F90
index 98bb5c4..268111b 100644
--- a/src/inv_square.F90
+++ b/src/inv_square.F90
@@ -22,7 +22,7 @@ contains
   impure elemental function inv_square(v) result(s)
     type(var), intent(in) :: v
     type(var) :: s
-    s = var(1.d0 / v%val() * v%val(), [v])
+    s = var(1.d0 / (v%val() * v%val()), [v])
     call s%set_chain(chain_isq)
   end function inv_square
 
-- 
2.43.0


From 42e7193b4f82f6fb4e38523c399d3a49d9c04c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:01 +0000
Subject: [PATCH 04/27] fix: real-var comparisons swapped their operands

---
 src/relational.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/relational.F90 b/src/relational.F90
index 4a23c58..5908c06 100644
--- a/src/relational.F90
+++ b/src/relational.F90
@@ -24,7 +24,7 @@ contains
 
 #define FUNC_REL_OP_VV(S, F) elemental function F (a, b) result(r); type(var), intent(in) :: a, b; logical :: r; r = a%val() S b%val(); end function F
 #define FUNC_REL_OP_VD(S, F) elemental function F (a, b) result(r); type(var), intent(in) :: a; real(rk), intent(in) :: b; logical :: r; r = a%val() S b; end function F
-#define FUNC_REL_OP_DV(S, F) elemental function F (a, b) result(r); real(rk), intent(in) :: a; type(var), intent(in) :: b; logical :: r; r = b%val() S a; end function F
+#define FUNC_REL_OP_DV(S, F) elemental function F (a, b) result(r); real(rk), intent(in) :: a; type(var), intent(in) :: b; logical :: r; r = a S b%val(); end function F
 
   FUNC_REL_OP_VV(==, var_eq)
   FUNC_REL_OP_VD(==, vd_eq)
-- 
2.43.0


From a848cb1f09c156a742961572f81d4515d8e932c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:01 +0000
Subject: [PATCH 05/27] fix: gradient and jacobian must only sweep their own
 nested tape

grad() also ran the rules of the caller's variables, changing their adjoints.
---
 src/grad.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grad.F90 b/src/grad.F90
index 8a829b2..6df8ad5 100644
--- a/src/grad.F90
+++ b/src/grad.F90
@@ -38,7 +38,7 @@ contains
     x_var = var(x)
     f_var = f(x_var)
     f_df(1) = f_var%val()
-    call f_var%grad()
+    call f_var%grad_nested()
     f_df(2:(1+size(x))) = x_var%adj()
 
     call end_nested()
@@ -59,7 +59,7 @@ contains
 
     do i = 1, n
        call set_zero_nested_adj()
-       call f_var(i)%grad()
+       call f_var(i)%grad_nested()
        f_df(i, 2:(1 + size(x))) = x_var%adj()
     end do
 
-- 
2.43.0


From 872b2f8636f8e809b428068c1ccd7c6ff615b855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:02 +0000
Subject: [PATCH 06/27] fix: end_nested zeroed one element past the recorded
 tape

Out of bounds when the tape is exactly full, or not allocated yet.
---
 src/nested.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nested.F90 b/src/nested.F90
index 5f50ba8..956ce4f 100644
--- a/src/nested.F90
+++ b/src/nested.F90
@@ -32,7 +32,7 @@ contains
   subroutine end_nested()
     integer :: i
     if ( nest_level > 0 ) then
-       do i = callstack % stack % head, nested_tape_head(nest_level), -1
+       do i = callstack % stack % head - 1, nested_tape_head(nest_level), -1
           callstack % stack % storage(i) = 0
        end do
        callstack % stack % head = nested_tape_head(nest_level)
-- 
2.43.0


From 4881e87aaaf3dc1cc446da7aceed284b6ad1c79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:02 +0000
Subject: [PATCH 07/27] fix: a new vari must not inherit the chain of a
 discarded one

After end_nested the slots are reused, and an independent variable put
into one ran the rule of the variable that lived there before.
---
 src/vari.F90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vari.F90 b/src/vari.F90
index 626f696..8d89a35 100644
--- a/src/vari.F90
+++ b/src/vari.F90
@@ -119,6 +119,7 @@ contains
     integer(ik) :: vp
     call callstack % alloc_vari_stack()
     callstack%varis(callstack%head)%i = callstack % stack % push(d)
+    callstack%varis(callstack%head)%chain => chain_dummy
     vp = callstack%head
     call incr1(callstack%head)
   end function new_vari_val
@@ -135,6 +136,7 @@ contains
     integer(ik) :: vp
     call callstack % alloc_vari_stack()
     callstack%varis(callstack%head)%i = callstack % stack % push(d, op)
+    callstack%varis(callstack%head)%chain => chain_dummy
     vp = callstack%head
     call incr1(callstack%head)
   end function new_vari_val_op
@@ -145,6 +147,7 @@ contains
     integer(ik) :: vp
     call callstack % alloc_vari_stack()
     callstack%varis(callstack%head)%i = callstack % stack % push(d, dop)
+    callstack%varis(callstack%head)%chain => chain_dummy
     vp = callstack%head
     call incr1(callstack%head)
   end function new_vari_val_dop
@@ -157,6 +160,7 @@ contains
     call callstack % alloc_vari_stack()
     callstack%varis(callstack%head)%i = callstack % stack % push(d,&
          & op, dop)
+    callstack%varis(callstack%head)%chain => chain_dummy
     vp = callstack%head
     call incr1(callstack%head)
   end function new_vari_val_op_dop
-- 
2.43.0


From 286d3b49fb450573cce3de284369cfdfd74dfb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:02 +0000
Subject: [PATCH 08/27] fix: grad_nested and set_zero_nested_adj outside any
 nested scope

Both indexed their arrays with 0; without a scope they cover the whole tape.
---
 src/nested.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nested.F90 b/src/nested.F90
index 956ce4f..f8da441 100644
--- a/src/nested.F90
+++ b/src/nested.F90
@@ -16,7 +16,7 @@ module fazang_nested_tape_mod
 contains
   subroutine set_zero_nested_adj ()
     integer i
-    do i = callstack % head - 1, nested_vari_head(nest_level), -1
+    do i = callstack % head - 1, curr_nested_vari_head(), -1
        call callstack % stack % set_adj(callstack%varis(i)%i, 0.0d0)
     end do
   end subroutine set_zero_nested_adj
@@ -44,7 +44,7 @@ contains
   end subroutine end_nested
 
   integer(ik) function curr_nested_vari_head()
-    curr_nested_vari_head = 0
+    curr_nested_vari_head = 1
     if (nest_level > 0) then
        curr_nested_vari_head = nested_vari_head(nest_level)
     end if
-- 
2.43.0


From 706316e04b795b7bb2444b48f7469c7fb2147fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:02 +0000
Subject: [PATCH 09/27] fix: begin_nested wrote out of bounds beyond
 max_nested_stack levels

---
 src/nested.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nested.F90 b/src/nested.F90
index f8da441..3a53591 100644
--- a/src/nested.F90
+++ b/src/nested.F90
@@ -24,6 +24,7 @@ contains
   ! we can't use OOP like FINAL because gfortran has implementation
   ! gap of standard 2018
   subroutine begin_nested()
+    if ( nest_level >= max_nested_stack ) error stop "too many nested tapes"
     nest_level = nest_level + 1
     nested_vari_head(nest_level) = callstack % head
     nested_tape_head(nest_level) = callstack % stack % head
-- 
2.43.0


From d624f520f9f56a29d76782bbd04a22b814f527a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:02 +0000
Subject: [PATCH 10/27] fix: export abs from the fazang module

---
 src/fazang.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fazang.F90 b/src/fazang.F90
index 79b4222..5532fd6 100644
--- a/src/fazang.F90
+++ b/src/fazang.F90
@@ -14,6 +14,7 @@ module fazang
   use fazang_grad_mod
 
   ! op 1
+  use fazang_abs_mod
   use fazang_sin_mod
   use fazang_cos_mod
   use fazang_tan_mod
-- 
2.43.0


From 0758afe45e9298d5d660282ed68521499273fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:02 +0000
Subject: [PATCH 11/27] fix: ODE sensitivities were limited to exactly three
 parameters

---
 src/cvodes_model.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvodes_model.F90 b/src/cvodes_model.F90
index 87f1ffe..895e9c0 100755
--- a/src/cvodes_model.F90
+++ b/src/cvodes_model.F90
@@ -175,7 +175,7 @@ contains
     type(N_Vector), pointer :: yiSdot
     real(c_double), pointer :: yiSdotvec(:)
     logical :: par_is_var
-    type(var) :: pvar(3)
+    type(var) :: pvar(merge(ode % ns - n, ode % ns, ode % ys))
     integer m               ! # of var params
 
     m = merge(ode % ns - n, ode % ns, ode % ys)
-- 
2.43.0


From 034f16bbf81fd297b9b87c0504fe8ac63ff85130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:02 +0000
Subject: [PATCH 12/27] fix: tape adj_curr returned the value, record_len
 misread the data count

---
 src/tape.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tape.F90 b/src/tape.F90
index 5678336..94a1827 100644
--- a/src/tape.F90
+++ b/src/tape.F90
@@ -190,7 +190,7 @@ contains
   pure function adj_curr (this) result(d)
     real(rk) :: d
     class(tape), target, intent(in) :: this
-    d = this%val_at(this%head)
+    d = this%adj_at(this%head)
   end function adj_curr
 
   ! op: operands index
@@ -349,7 +349,7 @@ contains
     class(tape), target, intent(in) :: this
     integer(ik), intent(in) :: i
     integer(ik) :: j
-    j = min_rec_size + this%storage(i + 4) + 2 * this%storage(i + 5)
+    j = min_rec_size + this%n_operand(i) + 2 * this%n_data_operand(i)
   end function record_len
 
   pure function n_data_operand(this, i) result(d)
-- 
2.43.0


From 7d0e155879ce79b6ab86973db26616ace532d880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:02 +0000
Subject: [PATCH 13/27] fix: data_1d_array_in_tape must store the size, not
 reserve that many records

---
 src/array_in_tape.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array_in_tape.F90 b/src/array_in_tape.F90
index 34cd669..8e90f4b 100644
--- a/src/array_in_tape.F90
+++ b/src/array_in_tape.F90
@@ -53,7 +53,7 @@ contains
     integer(ik) :: i
     s%tape_ptr => t
     s%rank = 1
-    s%loc = s%tape_ptr%push(size(a))
+    s%loc = s%tape_ptr%push([size(a)])
     i = s%tape_ptr%push(a)
   end function data_1d_array_in_tape
 
-- 
2.43.0


From cf53780732722815a418980a4494a24346bf5336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:02 +0000
Subject: [PATCH 14/27] fix: unary minus is elemental like every other unary
 operator

---
 src/sub.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sub.F90 b/src/sub.F90
index 678f00b..96b1ff6 100644
--- a/src/sub.F90
+++ b/src/sub.F90
@@ -66,7 +66,7 @@ contains
     call s%set_chain(chain_sub_dv)
   end function sub_dv
 
-  function neg(v) result(s)
+  impure elemental function neg(v) result(s)
     type(var), intent(in) :: v
     type(var) :: s
     s = var(-v%val(), [v])
-- 
2.43.0


From 25bdfc42ced155d37c06b4826c23232d94420df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:10 +0000
Subject: [PATCH 15/27] fix: N_VClone, N_VCloneEmpty and SUNMatClone
 dereferenced NULL when the clone could not be allocated

---
 lib/sundials-6.1.1/src/sundials/sundials_matrix.c  | 2 +-
 lib/sundials-6.1.1/src/sundials/sundials_nvector.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/sundials-6.1.1/src/sundials/sundials_matrix.c b/lib/sundials-6.1.1/src/sundials/sundials_matrix.c
index 0fa0e1a..f2157b9 100644
--- a/lib/sundials-6.1.1/src/sundials/sundials_matrix.c
+++ b/lib/sundials-6.1.1/src/sundials/sundials_matrix.c
@@ -133,7 +133,7 @@ SUNMatrix SUNMatClone(SUNMatrix A)
   SUNMatrix B = NULL;
   SUNDIALS_MARK_FUNCTION_BEGIN(getSUNProfiler(A));
   B = A->ops->clone(A);
-  B->sunctx = A->sunctx;
+  if (B != NULL) B->sunctx = A->sunctx;
   SUNDIALS_MARK_FUNCTION_END(getSUNProfiler(A));
   return(B);
 }
diff --git a/lib/sundials-6.1.1/src/sundials/sundials_nvector.c b/lib/sundials-6.1.1/src/sundials/sundials_nvector.c
index e7998ee..1098a71 100644
--- a/lib/sundials-6.1.1/src/sundials/sundials_nvector.c
+++ b/lib/sundials-6.1.1/src/sundials/sundials_nvector.c
@@ -279,7 +279,7 @@ N_Vector N_VClone(N_Vector w)
   N_Vector result = NULL;
   SUNDIALS_MARK_FUNCTION_BEGIN(getSUNProfiler(w));
   result = w->ops->nvclone(w);
-  result->sunctx = w->sunctx;
+  if (result != NULL) result->sunctx = w->sunctx;
   SUNDIALS_MARK_FUNCTION_END(getSUNProfiler(w));
   return result;
 }
@@ -289,7 +289,7 @@ N_Vector N_VCloneEmpty(N_Vector w)
   N_Vector result;
   SUNDIALS_MARK_FUNCTION_BEGIN(getSUNProfiler(w));
   result = w->ops->nvcloneempty(w);
-  result->sunctx = w->sunctx;
+  if (result != NULL) result->sunctx = w->sunctx;
   SUNDIALS_MARK_FUNCTION_END(getSUNProfiler(w));
   return result;
 }
-- 
2.43.0


From 71aa8b530fc403e80949b43ba209a0b02781725c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:10 +0000
Subject: [PATCH 16/27] fix: a failed vector array clone leaked the last vector
 it had made

---
 lib/sundials-6.1.1/src/sundials/sundials_nvector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sundials-6.1.1/src/sundials/sundials_nvector.c b/lib/sundials-6.1.1/src/sundials/sundials_nvector.c
index 1098a71..02d5820 100644
--- a/lib/sundials-6.1.1/src/sundials/sundials_nvector.c
+++ b/lib/sundials-6.1.1/src/sundials/sundials_nvector.c
@@ -984,7 +984,7 @@ N_Vector* N_VCloneEmptyVectorArray(int count, N_Vector w)
   for (j = 0; j < count; j++) {
     vs[j] = N_VCloneEmpty(w);
     if (vs[j] == NULL) {
-      N_VDestroyVectorArray(vs, j-1);
+      N_VDestroyVectorArray(vs, j);
       return(NULL);
     }
   }
@@ -1005,7 +1005,7 @@ N_Vector* N_VCloneVectorArray(int count, N_Vector w)
   for (j = 0; j < count; j++) {
     vs[j] = N_VClone(w);
     if (vs[j] == NULL) {
-      N_VDestroyVectorArray(vs, j-1);
+      N_VDestroyVectorArray(vs, j);
       return(NULL);
     }
   }
-- 
2.43.0


From e002fbdc55f4e6c50e72f5e4da95419158d7a6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:14 +0000
Subject: [PATCH 17/27] fix: the order decrease of the Adams method integrated
 its polynomial in place

The coefficients of q*INT{u(u+xi_1)...(u+xi_(q-2))}du were computed in
increasing order into the array they are read from, so for q >= 4 every
coefficient after the first was built from an already integrated one.
---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index d4c64e2..68162e7 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -5760,7 +5760,7 @@ static void cvAdjustAdams(CVodeMem cv_mem, int deltaq)
       cv_mem->cv_l[i] = cv_mem->cv_l[i]*xi + cv_mem->cv_l[i-1];
   }
 
-  for (j=1; j <= cv_mem->cv_q-2; j++)
+  for (j=cv_mem->cv_q-2; j >= 1; j--)
     cv_mem->cv_l[j+1] = cv_mem->cv_q * (cv_mem->cv_l[j] / (j+1));
 
   if (cv_mem->cv_q > 2) {
-- 
2.43.0


From 4665c47f50ffbcada2881c6a4721228c4bc703c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:27 +0000
Subject: [PATCH 18/27] fix: a recoverable right-hand side failure before a
 staggered sensitivity solve predicted twice

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index 68162e7..38684d7 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -5536,8 +5536,11 @@ static int cvStep(CVodeMem cv_mem)
       cv_mem->cv_nfe++;
       if (retval < 0) return(CV_RHSFUNC_FAIL);
       if (retval > 0) {
-        nflag = PREV_CONV_FAIL;
-        continue;
+        nflag = RHSFUNC_RECVR;
+        kflag = cvHandleNFlag(cv_mem, &nflag, saved_t, &ncfS,
+                              &(cv_mem->cv_ncfnS));
+        if (kflag == PREDICT_AGAIN) continue;
+        return(kflag);
       }
 
       if (do_sensi_stg) {
-- 
2.43.0


From 3515bce9d5db35459e0f80fda389b9ec03388902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:56 +0000
Subject: [PATCH 19/27] fix: an order change of the Adams method left out the
 quadrature sensitivity history

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index 38684d7..afc08c2 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -5741,6 +5741,9 @@ static void cvAdjustAdams(CVodeMem cv_mem, int deltaq)
     if (cv_mem->cv_sensi)
       (void) N_VConstVectorArray(cv_mem->cv_Ns, ZERO,
                                  cv_mem->cv_znS[cv_mem->cv_L]);
+    if (cv_mem->cv_quadr_sensi)
+      (void) N_VConstVectorArray(cv_mem->cv_Ns, ZERO,
+                                 cv_mem->cv_znQS[cv_mem->cv_L]);
     return;
   }
 
@@ -5786,6 +5789,13 @@ static void cvAdjustAdams(CVodeMem cv_mem, int deltaq)
                                          cv_mem->cv_znS[cv_mem->cv_q],
                                          cv_mem->cv_znS+2,
                                          cv_mem->cv_znS+2);
+
+    if (cv_mem->cv_quadr_sensi)
+      (void) N_VScaleAddMultiVectorArray(cv_mem->cv_Ns, cv_mem->cv_q-2,
+                                         cv_mem->cv_cvals,
+                                         cv_mem->cv_znQS[cv_mem->cv_q],
+                                         cv_mem->cv_znQS+2,
+                                         cv_mem->cv_znQS+2);
   }
 
 }
-- 
2.43.0


From 7b37aa19554ea64d4534e06948d8bad73d15b109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:07 +0000
Subject: [PATCH 20/27] fix: ODE callbacks got arrays of size 1 instead of the
 size of the state

FN_VGetArrayPointer returns a pointer of shape [1] whatever the length of
the vector, so size(y) was 1 in the user's right-hand side, and every
other use of the pointer was out of its bounds.
---
 src/cvodes.F90       | 10 +++++-----
 src/cvodes_model.F90 | 25 ++++++++++++++++++-------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/cvodes.F90 b/src/cvodes.F90
index f645264..f9dacd1 100644
--- a/src/cvodes.F90
+++ b/src/cvodes.F90
@@ -99,7 +99,7 @@ contains
        serv % yS = FN_VCloneVectorArray(ode % ns, serv % sunvec_y) 
        do is = 0, ode % ns - 1
           yiS => FN_VGetVecAtIndexVectorArray(serv % yS, is)
-          yiSvec => FN_VGetArrayPointer(yiS)
+          yiSvec => nvec_data(yiS)
           call FN_VConst(0.d0, yiS)
           if (ode % ys .and. is < serv % neq) then
              yiSvec(is + 1) = 1.0;
@@ -199,10 +199,10 @@ contains
           g = 0.d0
           do is = 0, ode % ns - 1
              yiS => FN_VGetVecAtIndexVectorArray(serv % yS, is)
-             yiSvec => FN_VGetArrayPointer(yiS)
+             yiSvec => nvec_data(yiS)
              g(is + 1) = yiSvec(i)
           end do
-          yiSvec => FN_VGetArrayPointer(serv % sunvec_y)
+          yiSvec => nvec_data(serv % sunvec_y)
           yt(i, outstep) = var_with_partials(yiSvec(i), y, g)
        enddo
     enddo
@@ -253,10 +253,10 @@ contains
           g = 0.d0
           do is = 0, ode % ns - 1
              yiS => FN_VGetVecAtIndexVectorArray(serv % yS, is)
-             yiSvec => FN_VGetArrayPointer(yiS)
+             yiSvec => nvec_data(yiS)
              g(is + 1) = yiSvec(i)
           end do
-          yiSvec => FN_VGetArrayPointer(serv % sunvec_y)          
+          yiSvec => nvec_data(serv % sunvec_y)          
           yt(i, outstep) = var_with_partials(yiSvec(i), param, g)
        enddo
     enddo
diff --git a/src/cvodes_model.F90 b/src/cvodes_model.F90
index 895e9c0..5169534 100755
--- a/src/cvodes_model.F90
+++ b/src/cvodes_model.F90
@@ -49,6 +49,17 @@ module fazang_cvodes_model_mod
   end interface cvs_rhs
 contains
 
+  ! data of a vector: the pointer FN_VGetArrayPointer returns always
+  ! has size 1, here it gets the length of the vector
+  function nvec_data(v) result(p)
+    type(N_Vector), target, intent(inout) :: v
+    real(c_double), pointer :: p(:)
+    real(c_double), pointer :: p1(:)
+
+    p1 => FN_VGetArrayPointer(v)
+    call c_f_pointer(c_loc(p1(1)), p, [FN_VGetLength(v)])
+  end function nvec_data
+
   function new_cvs_rhs(func) result(rhs)
     procedure(cvs_rhs_func) :: func
     type(cvs_rhs), target :: rhs
@@ -116,8 +127,8 @@ contains
     call c_f_pointer(user_data, ode)
 
     ! get data arrays from SUNDIALS vectors
-    yvec => FN_VGetArrayPointer(sunvec_y)
-    fvec => FN_VGetArrayPointer(sunvec_f)
+    yvec => nvec_data(sunvec_y)
+    fvec => nvec_data(sunvec_f)
 
     ! fill RHS vector
     call ode % f(tn, yvec, fvec)
@@ -197,15 +208,15 @@ contains
        do j = 1, ode % ns
           yiS => FN_VGetVecAtIndexVectorArray(yS, j - 1)
           yiSdot => FN_VGetVecAtIndexVectorArray(ySdot, j - 1)
-          yiSvec => FN_VGetArrayPointer(yiS)
-          yiSdotvec => FN_VGetArrayPointer(yiSdot)
+          yiSvec => nvec_data(yiS)
+          yiSdotvec => nvec_data(yiSdot)
           yiSdotvec(i) = dot_product(yvar%adj(), yiSvec)
        end do
        
        if ( par_is_var ) then
           do j = 1, m
              yiSdot => FN_VGetVecAtIndexVectorArray(ySdot, ode % ns - m + j - 1)
-             yiSdotvec => FN_VGetArrayPointer(yiSdot)
+             yiSdotvec => nvec_data(yiSdot)
              yiSdotvec(i) = yiSdotvec(i) + pvar(j) % adj();
           enddo
        end if
@@ -243,8 +254,8 @@ contains
     call c_f_pointer(user_data, ode)
 
     ! get data arrays from SUNDIALS vectors
-    yvec => FN_VGetArrayPointer(y)
-    fvec => FN_VGetArrayPointer(f)
+    yvec => nvec_data(y)
+    fvec => nvec_data(f)
     n = int(FN_VGetLength(y), kind=int32)
     call set_sens_rhs(n, t, yvec, fvec, yS, ySdot, ode)
     ierr = 0
-- 
2.43.0


From 1a2e5522f27abf5ef10eb6b3cb3154e44c80fa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:12 +0000
Subject: [PATCH 21/27] fix: with simultaneous sensitivities the setup of the
 other nonlinear solver was called

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index afc08c2..1c24169 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -6385,9 +6385,9 @@ static int cvNls(CVodeMem cv_mem, int nflag)
     N_VConst(ZERO, cv_mem->cv_acor);
 
   /* call nonlinear solver setup if it exists */
-  if ((cv_mem->NLS)->ops->setup) {
+  if (((do_sensi_sim) ? cv_mem->NLSsim : cv_mem->NLS)->ops->setup) {
     if (do_sensi_sim)
-      flag = SUNNonlinSolSetup(cv_mem->NLS, cv_mem->ycorSim, cv_mem);
+      flag = SUNNonlinSolSetup(cv_mem->NLSsim, cv_mem->ycorSim, cv_mem);
     else
       flag = SUNNonlinSolSetup(cv_mem->NLS, cv_mem->cv_acor, cv_mem);
 
-- 
2.43.0


From ad91aba79245076b0ad19e8581e32f9229a1502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:12 +0000
Subject: [PATCH 22/27] fix: the simultaneous fixed-point function gave the
 sensitivity right-hand side an overwritten ydot

---
 lib/sundials-6.1.1/src/cvodes/cvodes_nls_sim.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes_nls_sim.c b/lib/sundials-6.1.1/src/cvodes/cvodes_nls_sim.c
index e570fd4..3065138 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes_nls_sim.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes_nls_sim.c
@@ -530,10 +530,6 @@ static int cvNlsFPFunctionSensSim(N_Vector ycorSim, N_Vector resSim, void* cvode
   if (retval < 0) return(CV_RHSFUNC_FAIL);
   if (retval > 0) return(RHSFUNC_RECVR);
 
-  /* evaluate fixed point function */
-  N_VLinearSum(cv_mem->cv_h, res, -ONE, cv_mem->cv_zn[1], res);
-  N_VScale(cv_mem->cv_rl1, res, res);
-
   /* extract sensitivity and residual vectors from the vector wrapper */
   ycorS = NV_VECS_SW(ycorSim)+1;
   resS  = NV_VECS_SW(resSim)+1;
@@ -552,6 +548,10 @@ static int cvNlsFPFunctionSensSim(N_Vector ycorSim, N_Vector resSim, void* cvode
   if (retval < 0) return(CV_SRHSFUNC_FAIL);
   if (retval > 0) return(SRHSFUNC_RECVR);
 
+  /* evaluate fixed point function (the sensitivity rhs needs f in res) */
+  N_VLinearSum(cv_mem->cv_h, res, -ONE, cv_mem->cv_zn[1], res);
+  N_VScale(cv_mem->cv_rl1, res, res);
+
   /* evaluate sensitivity fixed point function */
   for (is=0; is<cv_mem->cv_Ns; is++) {
     N_VLinearSum(cv_mem->cv_h, resS[is], -ONE, cv_mem->cv_znS[1][is], resS[is]);
-- 
2.43.0


From ab1b5619c61f8e58a0356adb668f91f32cb3fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:12 +0000
Subject: [PATCH 23/27] fix: the corrector called the quadrature sensitivity
 function with the wrong data

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index 1c24169..68b41c6 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -6577,7 +6577,7 @@ static int cvQuadSensNls(CVodeMem cv_mem)
   /* Save quadrature correction in acorQ */
   retval = cv_mem->cv_fQS(cv_mem->cv_Ns, cv_mem->cv_tn, cv_mem->cv_y,
                           cv_mem->cv_yS, cv_mem->cv_ftempQ,
-                          cv_mem->cv_acorQS, cv_mem->cv_user_data,
+                          cv_mem->cv_acorQS, cv_mem->cv_fQS_data,
                           cv_mem->cv_tempv, cv_mem->cv_tempvQ);
   cv_mem->cv_nfQSe++;
   if (retval < 0) return(CV_QSRHSFUNC_FAIL);
-- 
2.43.0


From 3e8c868f71f01a68ed77377cc226bd3bf6970441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:17 +0000
Subject: [PATCH 24/27] fix: quadrature sensitivity tolerances without
 quadrature sensitivities returned the code of missing quadratures

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index 68b41c6..fdbe5a3 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -2417,7 +2417,7 @@ int CVodeQuadSensSStolerances(void *cvode_mem, realtype reltolQS, realtype *abst
   if (cv_mem->cv_QuadSensMallocDone == SUNFALSE) {
     cvProcessError(cv_mem, CV_NO_QUADSENS, "CVODES",
                    "CVodeQuadSSensSStolerances", MSGCV_NO_QUADSENSI);
-    return(CV_NO_QUAD);
+    return(CV_NO_QUADSENS);
   }
 
   /* Test user-supplied tolerances */
@@ -2489,7 +2489,7 @@ int CVodeQuadSensSVtolerances(void *cvode_mem,  realtype reltolQS, N_Vector *abs
   if (cv_mem->cv_QuadSensMallocDone == SUNFALSE) {
     cvProcessError(cv_mem, CV_NO_QUADSENS, "CVODES",
                    "CVodeQuadSensSVtolerances", MSGCV_NO_QUADSENSI);
-    return(CV_NO_QUAD);
+    return(CV_NO_QUADSENS);
   }
 
   /* Test user-supplied tolerances */
@@ -2575,7 +2575,7 @@ int CVodeQuadSensEEtolerances(void *cvode_mem)
   if (cv_mem->cv_QuadSensMallocDone == SUNFALSE) {
     cvProcessError(cv_mem, CV_NO_QUADSENS, "CVODES",
                    "CVodeQuadSensEEtolerances", MSGCV_NO_QUADSENSI);
-    return(CV_NO_QUAD);
+    return(CV_NO_QUADSENS);
   }
 
   cv_mem->cv_itolQS = CV_EE;
-- 
2.43.0


From 59f82bcf21ef2f298b4d098d921429f2402422c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:17 +0000
Subject: [PATCH 25/27] fix: the fixed point solver hid a failure of the system
 function behind a convergence failure

---
 .../src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/sundials-6.1.1/src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c b/lib/sundials-6.1.1/src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c
index fcfac69..abb5c95 100644
--- a/lib/sundials-6.1.1/src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c
+++ b/lib/sundials-6.1.1/src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c
@@ -233,7 +233,10 @@ int SUNNonlinSolSolve_FixedPoint(SUNNonlinearSolver NLS, N_Vector y0,
 
     /* compute fixed-point iteration function, store in gy */
     retval = FP_CONTENT(NLS)->Sys(ycor, gy, mem);
-    if (retval != SUN_NLS_SUCCESS) break;
+    if (retval != SUN_NLS_SUCCESS) {
+      FP_CONTENT(NLS)->nconvfails++;
+      return(retval);
+    }
 
     /* perform fixed point update, based on choice of acceleration or not */
     if (FP_CONTENT(NLS)->m == 0) {    /* basic fixed-point solver */
-- 
2.43.0


From ab6c94679aa240156fa4396431c5691730d84129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:28 +0000
Subject: [PATCH 26/27] fix: a linear solver failure without a case of its own
 was taken for success

---
 lib/sundials-6.1.1/src/cvodes/cvodes_ls.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes_ls.c b/lib/sundials-6.1.1/src/cvodes/cvodes_ls.c
index ce285dd..ccdce35 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes_ls.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes_ls.c
@@ -1789,6 +1789,7 @@ int cvLsSolve(CVodeMem cv_mem, N_Vector b, N_Vector weight,
     break;
   case SUNLS_CONV_FAIL:
   case SUNLS_ATIMES_FAIL_REC:
+  case SUNLS_PSET_FAIL_REC:
   case SUNLS_PSOLVE_FAIL_REC:
   case SUNLS_PACKAGE_FAIL_REC:
   case SUNLS_QRFACT_FAIL:
@@ -1798,8 +1799,12 @@ int cvLsSolve(CVodeMem cv_mem, N_Vector b, N_Vector weight,
   case SUNLS_MEM_NULL:
   case SUNLS_ILL_INPUT:
   case SUNLS_MEM_FAIL:
+  case SUNLS_ATIMES_NULL:
+  case SUNLS_PSET_FAIL_UNREC:
+  case SUNLS_PSOLVE_NULL:
   case SUNLS_GS_FAIL:
   case SUNLS_QRSOL_FAIL:
+  case SUNLS_VECTOROP_ERR:
     return(-1);
     break;
   case SUNLS_PACKAGE_FAIL_UNREC:
-- 
2.43.0


From a6de0682e0048890dde17851e0bd6b13b2f3ce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:28 +0000
Subject: [PATCH 27/27] fix: a released linear solver block stayed attached
 when attaching its successor failed

---
 lib/sundials-6.1.1/src/cvodes/cvodes_ls.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes_ls.c b/lib/sundials-6.1.1/src/cvodes/cvodes_ls.c
index ccdce35..8c3331b 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes_ls.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes_ls.c
@@ -1872,6 +1872,7 @@ int cvLsFree(CVodeMem cv_mem)
 
   /* free CVLs interface structure */
   free(cv_mem->cv_lmem);
+  cv_mem->cv_lmem = NULL;
 
   return(CVLS_SUCCESS);
 }
-- 
2.43.0

