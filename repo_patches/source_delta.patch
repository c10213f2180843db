From f2b600346289e11759f1c96a1f9d43379b45c76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 01/20] fix: do not modify the caller's argument in Fortran
 Cl2-Cl6 and Li4

dcl2, dcl3, dcl4, dcl5, dcl6 and dli4 used their dummy argument as a
scratch variable.  As Fortran passes arguments by reference, the call
silently changed the variable of the caller, crashed for arguments in
read-only storage and raced when two threads shared an argument.
---
 src/fortran/Cl2.f90 |  6 ++++--
 src/fortran/Cl3.f90 |  7 +++++--
 src/fortran/Cl4.f90 |  6 ++++--
 src/fortran/Cl5.f90 |  7 +++++--
 src/fortran/Cl6.f90 |  6 ++++--
 src/fortran/Li4.f90 | 24 +++++++++++++-----------
 6 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/src/fortran/Cl2.f90 b/src/fortran/Cl2.f90
index 4d0e3a4..00b6727 100644
--- a/src/fortran/Cl2.f90
+++ b/src/fortran/Cl2.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_2(\theta) = \operatorname{Im}(\operatorname{Li}_2(e^{i\theta}))\f$
-!> @param x real angle
+!> @param theta real angle
 !> @return \f$\operatorname{Cl}_2(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl2(x)
+double precision function dcl2(theta)
   implicit none
+  double precision, intent(in) :: theta
   double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -42,6 +43,7 @@ double precision function dcl2(x)
       9.5432542196310670D-6,                &
      -1.8184302880448247D-8                 /)
 
+  x = theta ! do not modify the argument of the caller
   sgn = 1
 
   if (x .lt. 0) then
diff --git a/src/fortran/Cl3.f90 b/src/fortran/Cl3.f90
index fed7d0e..5154954 100644
--- a/src/fortran/Cl3.f90
+++ b/src/fortran/Cl3.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_3(\theta) = \operatorname{Re}(\operatorname{Li}_3(e^{i\theta}))\f$
-!> @param x real angle
+!> @param theta real angle
 !> @return \f$\operatorname{Cl}_3(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl3(x)
+double precision function dcl3(theta)
   implicit none
+  double precision, intent(in) :: theta
   double precision :: x, y, z, z2, z4, p, q, p0, p1
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -43,6 +44,8 @@ double precision function dcl3(x)
       1.0199322763377861D-6,                &
       1.9612106499469264D-9                 /)
 
+  x = theta ! do not modify the argument of the caller
+
   if (x .lt. 0) then
      x = -x
   endif
diff --git a/src/fortran/Cl4.f90 b/src/fortran/Cl4.f90
index 3d00a08..ef1e971 100644
--- a/src/fortran/Cl4.f90
+++ b/src/fortran/Cl4.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_4(\theta) = \operatorname{Im}(\operatorname{Li}_4(e^{i\theta}))\f$
-!> @param x real angle
+!> @param theta real angle
 !> @return \f$\operatorname{Cl}_4(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl4(x)
+double precision function dcl4(theta)
   implicit none
+  double precision, intent(in) :: theta
   double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -43,6 +44,7 @@ double precision function dcl4(x)
       5.9283675098376635D-7,                &
       9.4127575773361230D-10                /)
 
+  x = theta ! do not modify the argument of the caller
   sgn = 1
 
   if (x .lt. 0) then
diff --git a/src/fortran/Cl5.f90 b/src/fortran/Cl5.f90
index 0468821..d811f2f 100644
--- a/src/fortran/Cl5.f90
+++ b/src/fortran/Cl5.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_5(\theta) = \operatorname{Re}(\operatorname{Li}_5(e^{i\theta}))\f$
-!> @param x real angle
+!> @param theta real angle
 !> @return \f$\operatorname{Cl}_5(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as a rational function approximation.
 !*********************************************************************
 
-double precision function dcl5(x)
+double precision function dcl5(theta)
   implicit none
+  double precision, intent(in) :: theta
   double precision :: x, y, z, z2, z4, p, q, p0, p1
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -44,6 +45,8 @@ double precision function dcl5(x)
      -7.4383354448335299D-8,                &
      -3.4131758392216437D-10                /)
 
+  x = theta ! do not modify the argument of the caller
+
   if (x .lt. 0) then
      x = -x
   endif
diff --git a/src/fortran/Cl6.f90 b/src/fortran/Cl6.f90
index d7a5af6..9237c7f 100644
--- a/src/fortran/Cl6.f90
+++ b/src/fortran/Cl6.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_6(\theta) = \operatorname{Im}(\operatorname{Li}_6(e^{i\theta}))\f$
-!> @param x real angle
+!> @param theta real angle
 !> @return \f$\operatorname{Cl}_6(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl6(x)
+double precision function dcl6(theta)
   implicit none
+  double precision, intent(in) :: theta
   double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -42,6 +43,7 @@ double precision function dcl6(x)
       3.5669441618295266D-8,                &
       2.5315391843409925D-10                /)
 
+  x = theta ! do not modify the argument of the caller
   sgn = 1
 
   if (x .lt. 0) then
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index 3e1f257..01adea0 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -109,7 +109,8 @@ end function dli4_one
 !*********************************************************************
 double precision function dli4(x)
   implicit none
-  double precision :: x, app, rest, sgn, l, l2
+  double precision, intent(in) :: x
+  double precision :: y, app, rest, sgn, l, l2
   double precision :: dli4_neg, dli4_half, dli4_mid, dli4_one
   double precision, parameter :: zeta2 = 1.6449340668482264D0
   double precision, parameter :: zeta4 = 1.0823232337111382D0
@@ -118,7 +119,7 @@ double precision function dli4(x)
   if (x .lt. -1) then
      l = log(-x)
      l2 = l**2
-     x = 1/x
+     y = 1/x
      rest = -7.0D0/4*zeta4 + l2*(-0.5D0*zeta2 - 1.0D0/24*l2)
      sgn = -1
   elseif (x .eq. -1) then
@@ -128,6 +129,7 @@ double precision function dli4(x)
      dli4 = x
      return
   elseif (x .lt. 1) then
+     y = x
      rest = 0
      sgn = 1
   elseif (x .eq. 1) then
@@ -136,19 +138,19 @@ double precision function dli4(x)
   else ! x > 1
      l = log(x)
      l2 = l**2
-     x = 1/x
+     y = 1/x
      rest = 2*zeta4 + l2*(zeta2 - 1.0D0/24*l2)
      sgn = -1
   endif
 
-  if (x .lt. 0) then
-     app = dli4_neg(x)
-  elseif (x .lt. 0.5D0) then
-     app = dli4_half(x)
-  elseif (x .lt. 0.8D0) then
-     app = dli4_mid(x)
-  else ! x <= 1
-     app = dli4_one(x)
+  if (y .lt. 0) then
+     app = dli4_neg(y)
+  elseif (y .lt. 0.5D0) then
+     app = dli4_half(y)
+  elseif (y .lt. 0.8D0) then
+     app = dli4_mid(y)
+  else ! y <= 1
+     app = dli4_one(y)
   endif
 
   dli4 = rest + sgn*app
-- 
2.43.0


From 9f03e0245272abbd4193b995f282a1bf545d023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 02/20] fix: define the result of Fortran cdli2 for a NaN real
 part and zero imaginary part

Neither of the two conditions is true for NaN, so the function returned
an uninitialised value.
---
 src/fortran/Li2.f90 | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fortran/Li2.f90 b/src/fortran/Li2.f90
index 8eaa847..8c10295 100644
--- a/src/fortran/Li2.f90
+++ b/src/fortran/Li2.f90
@@ -115,8 +115,11 @@ double complex function cdli2(z)
 
   ! special cases
   if (iz .eq. 0) then
-     if (rz .le. 1) cdli2 = dcmplx(dli2(rz), iz)
-     if (rz .gt. 1) cdli2 = dcmplx(dli2(rz), -PI*log(rz))
+     if (rz .gt. 1) then
+        cdli2 = dcmplx(dli2(rz), -PI*log(rz))
+     else ! rz <= 1 or NaN
+        cdli2 = dcmplx(dli2(rz), iz)
+     endif
      return
   endif
 
-- 
2.43.0


From 21d32af5ebf1c5a1b775ab0cfbd5b21d907c78b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 03/20] fix: terminate the series of Li(n,z) in all rounding
 modes

When rounding is not to nearest, adding a tiny term always changes the
sum and the terms get stuck at the smallest denormal number, so the
series never met their stopping criterion: Li(7,0.5) did not return with
FE_UPWARD.  Stop as soon as the next term is negligible.  The results
are unchanged when rounding to nearest.
---
 src/cpp/Li.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 773994e..c95d562 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -44,6 +44,22 @@ namespace {
       return { std::log(std::hypot(std::real(z), std::imag(z))), std::arg(z) };
    }
 
+   /// returns true if adding t to s does not change s when rounding to
+   /// nearest, or if t has reached the underflow threshold
+   bool is_negligible(double t, double s) noexcept
+   {
+      constexpr double eps = std::numeric_limits<double>::epsilon();
+      constexpr double tiny = 64*std::numeric_limits<double>::denorm_min();
+      return std::abs(t) <= 0.25*eps*std::abs(s) || std::abs(t) <= tiny;
+   }
+
+   /// returns true if the complex number t is negligible compared to s
+   bool is_negligible(const std::complex<double>& t, const std::complex<double>& s) noexcept
+   {
+      return is_negligible(std::real(t), std::real(s)) &&
+             is_negligible(std::imag(t), std::imag(s));
+   }
+
    /// Series expansion of Li_n(z) in terms of powers of z.
    /// Fast convergence for large n >= 12.
    std::complex<double> Li_series(int64_t n, const std::complex<double>& z) noexcept
@@ -57,7 +73,7 @@ namespace {
          sum += p;
          p *= z*std::pow(k/(1.0 + k), n);
          if (!is_finite(p)) { break; }
-      } while (sum != sum_old &&
+      } while (sum != sum_old && !is_negligible(p, sum) &&
                k < std::numeric_limits<int64_t>::max() - 2);
 
       return sum;
@@ -87,8 +103,9 @@ namespace {
       for (int64_t j = (n + 3); j < std::numeric_limits<int64_t>::max() - 2; j += 2) {
          p *= lnz2/static_cast<double>((j - 1)*j);
          const auto old_sum = sum;
-         sum += zeta(n - j)*p;
-         if (sum == old_sum) { break; }
+         const auto term = zeta(n - j)*p;
+         sum += term;
+         if (sum == old_sum || is_negligible(term, sum)) { break; }
       }
 
       return sum;
-- 
2.43.0


From ac65c2817dbbf36b197ae7cd7abda5c1d203170b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 04/20] fix: do not iterate over all orders in Li(n,z) for
 large n

The expansion around z = 1 has n terms before the singular one, all of
which are summed up even after log(z)^j/j! has underflowed.  Li(n,z)
with 0.75 < |z| < 1.4 thus needed O(n) steps and did not return in
finite time for large n.
---
 src/cpp/Li.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index c95d562..89e5552 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -60,6 +60,13 @@ namespace {
              is_negligible(std::imag(t), std::imag(s));
    }
 
+   /// returns true if z has underflowed
+   bool is_underflow(const std::complex<double>& z) noexcept
+   {
+      constexpr double min = std::numeric_limits<double>::min();
+      return std::abs(std::real(z)) < min && std::abs(std::imag(z)) < min;
+   }
+
    /// Series expansion of Li_n(z) in terms of powers of z.
    /// Fast convergence for large n >= 12.
    std::complex<double> Li_series(int64_t n, const std::complex<double>& z) noexcept
@@ -89,6 +96,7 @@ namespace {
       for (int64_t j = 1; j < n - 1; ++j) {
          p *= lnz/static_cast<double>(j);
          sum += zeta(n - j)*p;
+         if (is_underflow(p)) { return sum; }
       }
 
       p *= lnz/static_cast<double>(n - 1);
-- 
2.43.0


From 0d3754c9234de5cd2a6768303cd4ae489e67a810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 05/20] fix: avoid overflow in the inversion formula of Li(n,z)
 for large n and |z|

Powers of log(-z) and inverse factorials were multiplied only after
each of them had overflowed/underflowed, so e.g. Li(257,-1e53) was
(-inf,nan) although the result is representable.  Accumulate
log(-z)^m/m! instead.
---
 src/cpp/Li.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 89e5552..3de4570 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -173,19 +173,16 @@ namespace {
    {
       const std::complex<double> lnz = clog(-z);
       const std::complex<double> lnz2 = lnz*lnz;
-      const int64_t kmax = is_even(n) ? n/2 : (n - 1)/2;
-      std::complex<double> p = is_even(n) ? 1.0 : lnz;
-      std::complex<double> sum(0.0, 0.0), old_sum;
-
-      for (int64_t k = kmax; k != 0; --k) {
-         const double ifac = inv_fac(n - 2*k);
-         if (ifac == 0) { return 2.0*sum; }
-         sum += neg_eta(2*k)*ifac*p;
-         p *= lnz2;
-         if (sum == old_sum) { break; }
+      std::complex<double> p = is_even(n) ? 1.0 : lnz; // log(-z)^m/m!
+      std::complex<double> sum(0.0, 0.0);
+
+      for (int64_t m = is_even(n) ? 0 : 1; m < n; m += 2) {
+         sum += neg_eta(n - m)*p;
+         p *= lnz2/((m + 1.0)*(m + 2.0));
+         if (is_underflow(p)) { return 2.0*sum; }
       }
 
-      return 2.0*sum - p*inv_fac(n);
+      return 2.0*sum - p;
    }
 
 } // anonymous namespace
-- 
2.43.0


From 2c4954752a8b1ef4aad948d295027e5924295f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 06/20] fix: use log(1+z) for small arguments in the C and
 Fortran complex polylogarithms

cli2f, cli3-cli6, cli3l-cli6l and cdli3-cdli6 computed log(1 - z) by
forming 1 - z first and so lost all significant digits for small (and,
through the inversion, large) |z|, e.g. cli3(1e-10*(1+I)) was wrong at
the level 1e-7.  Use the existing clog1p/clog1pl/cdlog1p, as cli2 and
the C++ implementation do.
---
 src/c/Li2.c         |  8 ++++----
 src/c/Li3.c         |  8 ++++----
 src/c/Li4.c         |  8 ++++----
 src/c/Li5.c         |  8 ++++----
 src/c/Li6.c         |  8 ++++----
 src/c/log.c         | 16 ++++++++++++++++
 src/c/log.h         |  3 +++
 src/fortran/Li3.f90 |  6 +++---
 src/fortran/Li4.f90 |  6 +++---
 src/fortran/Li5.f90 |  6 +++---
 src/fortran/Li6.f90 |  6 +++---
 11 files changed, 51 insertions(+), 32 deletions(-)

diff --git a/src/c/Li2.c b/src/c/Li2.c
index 1e60dd8..87e59fa 100644
--- a/src/c/Li2.c
+++ b/src/c/Li2.c
@@ -332,22 +332,22 @@ float _Complex cli2f(float _Complex z)
    if (rz <= 0.5f) {
       if (nz > 1.0f) {
          const float _Complex lz = clogf(-z);
-         u = -clogf(1.0f - 1.0f / z);
+         u = -clog1pf(-1.0f/z);
          rest = -0.5f*lz*lz - PI*PI/6;
          sgn = -1;
       } else { /* nz <= 1 */
-         u = -clogf(1.0f - z);
+         u = -clog1pf(-z);
          rest = 0;
          sgn = 1;
       }
    } else { /* rz > 0.5f */
       if (nz <= 2*rz) {
          u = -clogf(z);
-         rest = u*clogf(1.0f - z) + PI*PI/6;
+         rest = u*clog1pf(-z) + PI*PI/6;
          sgn = -1;
       } else { /* nz > 2*rz */
          const float _Complex lz = clogf(-z);
-         u = -clogf(1.0f - 1.0f / z);
+         u = -clog1pf(-1.0f/z);
          rest = -0.5f*lz*lz - PI*PI/6;
          sgn = -1;
       }
diff --git a/src/c/Li3.c b/src/c/Li3.c
index ef1f532..e3862f4 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -165,11 +165,11 @@ double _Complex cli3(double _Complex z)
    double _Complex u = 0.0, rest = 0.0;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       rest = -lmz*(lmz*lmz/6.0 + zeta2);
    }
 
@@ -317,11 +317,11 @@ long double _Complex cli3l(long double _Complex z)
    long double _Complex u = 0.0L, rest = 0.0L;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0L ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       rest = -lmz*(lmz*lmz/6.0L + zeta2);
    }
 
diff --git a/src/c/Li4.c b/src/c/Li4.c
index 0c7cf7a..210ae83 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -224,12 +224,12 @@ double _Complex cli4(double _Complex z)
    double sgn = 1;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       r = 1.0/360.0*(-7*PI4 + lmz2*(-30.0*PI2 - 15.0*lmz2));
       sgn = -1;
    }
@@ -377,12 +377,12 @@ long double _Complex cli4l(long double _Complex z)
    long double sgn = 1;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       r = 1.0L/360.0L*(-7*PI4 + lmz2*(-30.0L*PI2 - 15.0L*lmz2));
       sgn = -1;
    }
diff --git a/src/c/Li5.c b/src/c/Li5.c
index 2249583..5a6cf3a 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -84,12 +84,12 @@ double _Complex cli5(double _Complex z)
    double _Complex u = 0.0, rest = 0.0;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       rest = -1.0/360.0*lmz*(7*PI4 + lmz2*(10.0*PI2 + 3.0*lmz2));
    }
 
@@ -236,12 +236,12 @@ long double _Complex cli5l(long double _Complex z)
    long double _Complex u = 0.0L, rest = 0.0L;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       rest = -1.0L/360.0L*lmz*(7*PI4 + lmz2*(10.0L*PI2 + 3.0L*lmz2));
    }
 
diff --git a/src/c/Li6.c b/src/c/Li6.c
index 555e952..2a32ce6 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -86,12 +86,12 @@ double _Complex cli6(double _Complex z)
    double sgn = 1;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       r = -31.0*PI6/15120.0 + lmz2*(-7.0/720.0*PI4 + lmz2*(-1.0/144.0*PI2 - 1.0/720.0*lmz2));
       sgn = -1;
    }
@@ -247,12 +247,12 @@ long double _Complex cli6l(long double _Complex z)
    long double sgn = 1;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       r = -31.0L*PI6/15120.0L
           + lmz2*(-7.0L/720.0L*PI4 +
                   lmz2*(-1.0L/144.0L*PI2 - 1.0L/720.0L*lmz2));
diff --git a/src/c/log.c b/src/c/log.c
index 760c063..7572358 100644
--- a/src/c/log.c
+++ b/src/c/log.c
@@ -8,6 +8,22 @@
 #include <math.h>
 
 
+float _Complex clog1pf(float _Complex z)
+{
+   const float _Complex u = 1.0f + z;
+   const float rz = crealf(u);
+   const float iz = cimagf(u);
+
+   if (rz == 1.0f && iz == 0.0f) {
+      return z;
+   } else if (rz <= 0.0f) {
+      return clogf(u);
+   }
+
+   return clogf(u)*(z/(u - 1.0f));
+}
+
+
 double _Complex clog1p(double _Complex z)
 {
    const double _Complex u = 1.0 + z;
diff --git a/src/c/log.h b/src/c/log.h
index 2a7b0cd..2404ebb 100644
--- a/src/c/log.h
+++ b/src/c/log.h
@@ -6,6 +6,9 @@
 
 #pragma once
 
+/** returns clog(1 + z) with single precision */
+float _Complex clog1pf(float _Complex z);
+
 /** returns clog(1 + z) with double precision */
 double _Complex clog1p(double _Complex z);
 
diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index 6ce02a8..9f3884e 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -109,7 +109,7 @@ end function dli3
 !*********************************************************************
 double complex function cdli3(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c0, c1, lmz, rest, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c0, c1, lmz, rest, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg, dli3
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: zeta2 = 1.6449340668482264D0
@@ -165,7 +165,7 @@ double complex function cdli3(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       rest = 0
    else ! nz > 1
       if (pz .gt. 0) then
@@ -174,7 +174,7 @@ double complex function cdli3(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       rest = -lmz*(lmz**2/6 + zeta2)
    endif
 
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index 01adea0..125e3fb 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -166,7 +166,7 @@ end function dli4
 !*********************************************************************
 double complex function cdli4(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c3, lmz, r, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c3, lmz, r, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg, sgn, dli4
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
@@ -227,7 +227,7 @@ double complex function cdli4(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       r = 0
       sgn = 1
    else ! nz > 1
@@ -237,7 +237,7 @@ double complex function cdli4(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       r = (-7*PI4 + lmz**2*(-30*PI2 - 15*lmz**2))/360
       sgn = -1
    endif
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index 46900f1..4c274d2 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -13,7 +13,7 @@
 !*********************************************************************
 double complex function cdli5(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c4, lmz, rest, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c4, lmz, rest, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
@@ -79,7 +79,7 @@ double complex function cdli5(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       rest = 0
    else ! nz > 1
       if (pz .gt. 0) then
@@ -88,7 +88,7 @@ double complex function cdli5(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       rest = -lmz*(7*PI4 + lmz**2*(10*PI2 + 3*lmz**2))/360
    endif
 
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index 4c05c69..bb2c28e 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -13,7 +13,7 @@
 !*********************************************************************
 double complex function cdli6(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c5, lmz, r, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c5, lmz, r, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg, sgn
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
@@ -79,7 +79,7 @@ double complex function cdli6(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       r = 0
       sgn = 1
    else ! nz > 1
@@ -89,7 +89,7 @@ double complex function cdli6(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       r = -31*PI6/15120 + lmz**2*(-7*PI4/720 + lmz**2*(-PI2/144 - lmz**2/720))
       sgn = -1
    endif
-- 
2.43.0


From d927a1cd1382982643a3ff82623e7bb3d233ecf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 07/20] fix: avoid overflow of (1-z)^2 in Li(-1,z)

For |z| > 1.3e154 the denominator overflowed, which gave 0 or, when
rounding upwards, (nan,nan) instead of 1/z.
---
 src/cpp/Li.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 3de4570..202da62 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -225,7 +225,7 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
       const auto sqrtz = std::sqrt(z);
       return std::exp2(n - 1)*(Li(n, sqrtz) + Li(n, -sqrtz));
    } else if (n == -1) {
-      return z/((1.0 - z)*(1.0 - z));
+      return z/(1.0 - z)/(1.0 - z);
    } else if (n == 0) {
       return z/(1.0 - z);
    } else if (n == 1) {
-- 
2.43.0


From 08b5c3a9f0108a6f1cf9fc3827bcf5f609d699cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 08/20] fix: terminate Li(n,z) for orders n close to the
 smallest integer

For n close to the smallest 64-bit integer 1 - n and n - k overflow, and
the series for n < 0 then never ends (or returns arbitrary values).
Evaluate Gamma(1 - n) with a floating-point argument and leave the loop
as soon as the sum is not finite.
---
 src/cpp/Li.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 202da62..29bd56c 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -143,7 +143,7 @@ namespace {
    {
       const std::complex<double> lnz = clog(z);
       const std::complex<double> lnz2 = lnz*lnz;
-      std::complex<double> sum = std::tgamma(1 - n)*stable_pow(-lnz, n - 1);
+      std::complex<double> sum = std::tgamma(1.0 - n)*stable_pow(-lnz, n - 1);
       std::complex<double> lnzk, sum_old, term;
       int64_t k;
 
@@ -158,7 +158,7 @@ namespace {
 
       do {
          term = zeta(n - k)*inv_fac(k)*lnzk;
-         if (!is_finite(term)) { break; }
+         if (!is_finite(term) || !is_finite(sum)) { break; }
          sum_old = sum;
          sum += term;
          lnzk *= lnz2;
-- 
2.43.0


From 4943e609a9ac1184815043d0d06fb6e2e5940078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 09/20] fix: use log(1+x) in Fortran dli2 for small negative
 arguments

log(1 - x)^2 with 1 - x rounded upwards is not small compared to x for
tiny x < 0, so that the result was wrong with directed rounding.  The C
and C++ functions use log1p already.
---
 src/fortran/Li2.f90 |  4 ++--
 src/fortran/log.f90 | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/fortran/Li2.f90 b/src/fortran/Li2.f90
index 8c10295..a24114b 100644
--- a/src/fortran/Li2.f90
+++ b/src/fortran/Li2.f90
@@ -18,7 +18,7 @@
 
 double precision function dli2(x)
   implicit none
-  double precision :: x, y, r, s, y2, y4, p, q, l
+  double precision :: x, y, r, s, y2, y4, p, q, l, dlog1p
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: cp(6) = (/ &
       0.9999999999999999502D+0,             &
@@ -47,7 +47,7 @@ double precision function dli2(x)
       return
    elseif (x .lt. 0) then
       y = x/(x - 1)
-      r = -0.5D0*log(1 - x)**2
+      r = -0.5D0*dlog1p(-x)**2
       s = -1
    elseif (x .eq. 0) then
       dli2 = x
diff --git a/src/fortran/log.f90 b/src/fortran/log.f90
index 2708420..fdb50ad 100644
--- a/src/fortran/log.f90
+++ b/src/fortran/log.f90
@@ -5,6 +5,26 @@
 !*********************************************************************
 
 
+!*********************************************************************
+!> @brief Implementation of log(1 + x) for real x > -1
+!> @param x real argument
+!> @return log(1 + x)
+!*********************************************************************
+double precision function dlog1p(x)
+  implicit none
+  double precision :: x, u
+
+  u = 1 + x
+
+  if (u .eq. 1) then
+     dlog1p = x
+  else
+     dlog1p = log(u)*(x/(u - 1))
+  endif
+
+end function dlog1p
+
+
 !*********************************************************************
 !> @brief Implementation of log(1 + z) for complex z
 !> @param z complex argument
-- 
2.43.0


From 4d6754ed50287cec70cd806cb8c27d33bd44b5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 10/20] fix: use log(1+z) for small arguments in Li(1,z)

-log(1 - z) has no correct digits for small |z|.
---
 src/cpp/Li.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 29bd56c..875389d 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -13,6 +13,7 @@
 #include "eta.hpp"
 #include "factorial.hpp"
 #include "harmonic.hpp"
+#include "log.hpp"
 #include "zeta.hpp"
 #include <cmath>
 #include <complex>
@@ -229,6 +230,9 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
    } else if (n == 0) {
       return z/(1.0 - z);
    } else if (n == 1) {
+      if (std::norm(z) < 0.25) {
+         return -log1p(-z);
+      }
       return -clog(1.0 - z);
    } else if (n == 2) {
       return Li2(z);
-- 
2.43.0


From 207ee830358097ccb7c7ebe7ce2f939b16a8daf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 11/20] fix: choose the side of the branch cut by Im(z) if
 arg(z) underflows

If Im(z) > 0 is so small that arg(z) underflows to zero, log(-z) was
evaluated on the wrong side of its branch cut, and the imaginary part of
Li_n(z) (n = 3,...,6) had the wrong sign.
---
 src/c/Li3.c         |  4 ++--
 src/c/Li4.c         |  4 ++--
 src/c/Li5.c         |  4 ++--
 src/c/Li6.c         |  4 ++--
 src/c/log.c         | 34 ++++++++++++++++++++++++++++++++++
 src/c/log.h         |  6 ++++++
 src/cpp/Li.cpp      |  2 +-
 src/cpp/Li3.cpp     |  4 ++--
 src/cpp/Li4.cpp     |  4 ++--
 src/cpp/Li5.cpp     |  4 ++--
 src/cpp/Li6.cpp     |  4 ++--
 src/cpp/log.hpp     | 20 ++++++++++++++++++++
 src/fortran/Li3.f90 |  4 ++--
 src/fortran/Li4.f90 |  4 ++--
 src/fortran/Li5.f90 |  4 ++--
 src/fortran/Li6.f90 |  4 ++--
 src/fortran/log.f90 | 18 ++++++++++++++++++
 17 files changed, 103 insertions(+), 25 deletions(-)

diff --git a/src/c/Li3.c b/src/c/Li3.c
index e3862f4..5c584de 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -136,7 +136,7 @@ double _Complex cli3(double _Complex z)
    }
 
    const double nz  = hypot(rz, iz);
-   const double pz  = atan2(iz, rz);
+   const double pz  = nonzero_atan2(iz, rz);
    const double lnz = log(nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
@@ -268,7 +268,7 @@ long double _Complex cli3l(long double _Complex z)
    }
 
    const long double nz  = hypotl(rz, iz);
-   const long double pz  = atan2l(iz, rz);
+   const long double pz  = nonzero_atan2l(iz, rz);
    const long double lnz = logl(nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
diff --git a/src/c/Li4.c b/src/c/Li4.c
index 210ae83..a112b89 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -190,7 +190,7 @@ double _Complex cli4(double _Complex z)
    }
 
    const double nz  = hypot(rz, iz);
-   const double pz  = atan2(iz, rz);
+   const double pz  = nonzero_atan2(iz, rz);
    const double lnz = log(nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
@@ -328,7 +328,7 @@ long double _Complex cli4l(long double _Complex z)
    }
 
    const long double nz  = hypotl(rz, iz);
-   const long double pz  = atan2l(iz, rz);
+   const long double pz  = nonzero_atan2l(iz, rz);
    const long double lnz = logl(nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
diff --git a/src/c/Li5.c b/src/c/Li5.c
index 5a6cf3a..eaf875f 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -51,7 +51,7 @@ double _Complex cli5(double _Complex z)
    }
 
    const double nz  = hypot(rz, iz);
-   const double pz  = atan2(iz, rz);
+   const double pz  = nonzero_atan2(iz, rz);
    const double lnz = log(nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
@@ -186,7 +186,7 @@ long double _Complex cli5l(long double _Complex z)
    }
 
    const long double nz  = hypotl(rz, iz);
-   const long double pz  = atan2l(iz, rz);
+   const long double pz  = nonzero_atan2l(iz, rz);
    const long double lnz = logl(nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
diff --git a/src/c/Li6.c b/src/c/Li6.c
index 2a32ce6..12689d7 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -51,7 +51,7 @@ double _Complex cli6(double _Complex z)
    }
 
    const double nz  = hypot(rz, iz);
-   const double pz  = atan2(iz, rz);
+   const double pz  = nonzero_atan2(iz, rz);
    const double lnz = log(nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
@@ -191,7 +191,7 @@ long double _Complex cli6l(long double _Complex z)
    }
 
    const long double nz  = hypotl(rz, iz);
-   const long double pz  = atan2l(iz, rz);
+   const long double pz  = nonzero_atan2l(iz, rz);
    const long double lnz = logl(nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
diff --git a/src/c/log.c b/src/c/log.c
index 7572358..1603ddc 100644
--- a/src/c/log.c
+++ b/src/c/log.c
@@ -98,3 +98,37 @@ long double _Complex pos_clogl(long double _Complex z)
 
    return clogl(z);
 }
+
+
+/**
+ * returns atan2(y, x)
+ * @note The result has the sign of y and is non-zero if y is non-zero,
+ * even if atan2(y, x) underflows
+ */
+double nonzero_atan2(double y, double x)
+{
+   const double phi = atan2(y, x);
+
+   if (phi == 0.0 && y != 0.0) {
+      return copysign(DBL_MIN, y);
+   }
+
+   return phi;
+}
+
+
+/**
+ * returns atan2(y, x)
+ * @note The result has the sign of y and is non-zero if y is non-zero,
+ * even if atan2(y, x) underflows
+ */
+long double nonzero_atan2l(long double y, long double x)
+{
+   const long double phi = atan2l(y, x);
+
+   if (phi == 0.0L && y != 0.0L) {
+      return copysignl(LDBL_MIN, y);
+   }
+
+   return phi;
+}
diff --git a/src/c/log.h b/src/c/log.h
index 2404ebb..f7ce583 100644
--- a/src/c/log.h
+++ b/src/c/log.h
@@ -20,3 +20,9 @@ double _Complex pos_clog(double _Complex z);
 
 /** returns clog(z) with long double precision */
 long double _Complex pos_clogl(long double _Complex z);
+
+/** returns atan2(y, x) with double precision, non-zero if y is non-zero */
+double nonzero_atan2(double y, double x);
+
+/** returns atan2(y, x) with long double precision, non-zero if y is non-zero */
+long double nonzero_atan2l(long double y, long double x);
diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 875389d..28645eb 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -42,7 +42,7 @@ namespace {
       } else if (std::imag(z) == 0.0) {
          return { std::log(-std::real(z)), PI };
       }
-      return { std::log(std::hypot(std::real(z), std::imag(z))), std::arg(z) };
+      return { std::log(std::hypot(std::real(z), std::imag(z))), nonzero_arg(z) };
    }
 
    /// returns true if adding t to s does not change s when rounding to
diff --git a/src/cpp/Li3.cpp b/src/cpp/Li3.cpp
index d7fe2c5..7c66a6b 100644
--- a/src/cpp/Li3.cpp
+++ b/src/cpp/Li3.cpp
@@ -144,7 +144,7 @@ std::complex<double> Li3(const std::complex<double>& z) noexcept
    }
 
    const double nz  = std::abs(z);
-   const double pz  = std::arg(z);
+   const double pz  = nonzero_arg(z);
    const double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
@@ -275,7 +275,7 @@ std::complex<long double> Li3(const std::complex<long double>& z) noexcept
    }
 
    const long double nz  = std::abs(z);
-   const long double pz  = std::arg(z);
+   const long double pz  = nonzero_arg(z);
    const long double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
diff --git a/src/cpp/Li4.cpp b/src/cpp/Li4.cpp
index df16968..9f708d2 100644
--- a/src/cpp/Li4.cpp
+++ b/src/cpp/Li4.cpp
@@ -197,7 +197,7 @@ std::complex<double> Li4(const std::complex<double>& z) noexcept
    }
 
    const double nz  = std::abs(z);
-   const double pz  = std::arg(z);
+   const double pz  = nonzero_arg(z);
    const double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
@@ -325,7 +325,7 @@ std::complex<long double> Li4(const std::complex<long double>& z) noexcept
    }
 
    const long double nz  = std::abs(z);
-   const long double pz  = std::arg(z);
+   const long double pz  = nonzero_arg(z);
    const long double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
diff --git a/src/cpp/Li5.cpp b/src/cpp/Li5.cpp
index 9706eb5..28389fb 100644
--- a/src/cpp/Li5.cpp
+++ b/src/cpp/Li5.cpp
@@ -54,7 +54,7 @@ std::complex<double> Li5(const std::complex<double>& z) noexcept
    }
 
    const double nz  = std::abs(z);
-   const double pz  = std::arg(z);
+   const double pz  = nonzero_arg(z);
    const double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
@@ -182,7 +182,7 @@ std::complex<long double> Li5(const std::complex<long double>& z) noexcept
    }
 
    const long double nz  = std::abs(z);
-   const long double pz  = std::arg(z);
+   const long double pz  = nonzero_arg(z);
    const long double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
diff --git a/src/cpp/Li6.cpp b/src/cpp/Li6.cpp
index aa53d6c..b8808bb 100644
--- a/src/cpp/Li6.cpp
+++ b/src/cpp/Li6.cpp
@@ -54,7 +54,7 @@ std::complex<double> Li6(const std::complex<double>& z) noexcept
    }
 
    const double nz  = std::abs(z);
-   const double pz  = std::arg(z);
+   const double pz  = nonzero_arg(z);
    const double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
@@ -188,7 +188,7 @@ std::complex<long double> Li6(const std::complex<long double>& z) noexcept
    }
 
    const long double nz  = std::abs(z);
-   const long double pz  = std::arg(z);
+   const long double pz  = nonzero_arg(z);
    const long double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
diff --git a/src/cpp/log.hpp b/src/cpp/log.hpp
index b10ef72..c29a0be 100644
--- a/src/cpp/log.hpp
+++ b/src/cpp/log.hpp
@@ -48,4 +48,24 @@ std::complex<T> pos_log(const std::complex<T>& z) noexcept
 }
 
 
+/**
+ * returns arg(z) for complex z
+ * @param z complex argument
+ * @note The result has the sign of Im(z) and is non-zero if Im(z) is
+ * non-zero, even if arg(z) underflows
+ * @return arg(z)
+ */
+template <typename T>
+T nonzero_arg(const std::complex<T>& z) noexcept
+{
+   const T arg = std::arg(z);
+
+   if (arg == T(0) && std::imag(z) != T(0)) {
+      return std::copysign(std::numeric_limits<T>::min(), std::imag(z));
+   }
+
+   return arg;
+}
+
+
 } // namespace polylogarithm
diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index 9f3884e..fcff014 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -110,7 +110,7 @@ end function dli3
 double complex function cdli3(z)
   implicit none
   double complex :: z, u, u2, u4, u8, c0, c1, lmz, rest, pos_cdlog, cdlog1p
-  double precision :: rz, iz, nz, pz, lnz, arg, dli3
+  double precision :: rz, iz, nz, pz, lnz, arg, dli3, nonzero_datan2
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: zeta2 = 1.6449340668482264D0
   double precision, parameter :: zeta3 = 1.2020569031595943D0
@@ -145,7 +145,7 @@ double complex function cdli3(z)
    endif
 
    nz  = hypot(rz, iz)
-   pz  = datan2(iz, rz)
+   pz  = nonzero_datan2(iz, rz)
    lnz = log(nz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index 125e3fb..6d61157 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -167,7 +167,7 @@ end function dli4
 double complex function cdli4(z)
   implicit none
   double complex :: z, u, u2, u4, u8, c3, lmz, r, pos_cdlog, cdlog1p
-  double precision :: rz, iz, nz, pz, lnz, arg, sgn, dli4
+  double precision :: rz, iz, nz, pz, lnz, arg, sgn, dli4, nonzero_datan2
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
   double precision, parameter :: PI4   = 97.409091034002437D0
@@ -206,7 +206,7 @@ double complex function cdli4(z)
    endif
 
    nz  = hypot(rz, iz)
-   pz  = datan2(iz, rz)
+   pz  = nonzero_datan2(iz, rz)
    lnz = log(nz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index 4c274d2..534aaa5 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -14,7 +14,7 @@
 double complex function cdli5(z)
   implicit none
   double complex :: z, u, u2, u4, u8, c4, lmz, rest, pos_cdlog, cdlog1p
-  double precision :: rz, iz, nz, pz, lnz, arg
+  double precision :: rz, iz, nz, pz, lnz, arg, nonzero_datan2
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
   double precision, parameter :: PI4   = 97.409091034002437D0
@@ -58,7 +58,7 @@ double complex function cdli5(z)
    endif
 
    nz  = hypot(rz, iz)
-   pz  = datan2(iz, rz)
+   pz  = nonzero_datan2(iz, rz)
    lnz = log(nz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index bb2c28e..08bbe92 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -14,7 +14,7 @@
 double complex function cdli6(z)
   implicit none
   double complex :: z, u, u2, u4, u8, c5, lmz, r, pos_cdlog, cdlog1p
-  double precision :: rz, iz, nz, pz, lnz, arg, sgn
+  double precision :: rz, iz, nz, pz, lnz, arg, sgn, nonzero_datan2
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
   double precision, parameter :: PI4   = 97.409091034002437D0
@@ -59,7 +59,7 @@ double complex function cdli6(z)
    endif
 
    nz  = hypot(rz, iz)
-   pz  = datan2(iz, rz)
+   pz  = nonzero_datan2(iz, rz)
    lnz = log(nz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
diff --git a/src/fortran/log.f90 b/src/fortran/log.f90
index fdb50ad..1f577c3 100644
--- a/src/fortran/log.f90
+++ b/src/fortran/log.f90
@@ -74,3 +74,21 @@ double complex function pos_cdlog(z)
   endif
 
 end function pos_cdlog
+
+
+!*********************************************************************
+!> @brief Implementation of atan2(y, x)
+!> @note The result has the sign of y and is non-zero if y is non-zero,
+!> even if atan2(y, x) underflows
+!*********************************************************************
+double precision function nonzero_datan2(y, x)
+  implicit none
+  double precision :: y, x
+
+  nonzero_datan2 = datan2(y, x)
+
+  if (nonzero_datan2 .eq. 0 .and. y .ne. 0) then
+     nonzero_datan2 = sign(TINY(1D0), y)
+  endif
+
+end function nonzero_datan2
-- 
2.43.0


From d57a7a4bf1601b883168e526f6dfaede77ce0082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 12/20] fix: leave the loops of Li(n,z) on overflow in all
 rounding modes

When rounding toward zero an overflow gives the largest finite number
instead of infinity, so that Li_series did not notice it and iterated
for ~|n| terms.  Li_rest did not stop on a non-finite power.
---
 src/cpp/Li.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 28645eb..dfa413f 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -68,6 +68,14 @@ namespace {
       return std::abs(std::real(z)) < min && std::abs(std::imag(z)) < min;
    }
 
+   /// returns true if z is not a number or has overflowed (in directed
+   /// rounding modes an overflow may yield the largest finite number)
+   bool is_overflow(const std::complex<double>& z) noexcept
+   {
+      constexpr double max = std::numeric_limits<double>::max();
+      return !(std::abs(std::real(z)) < max && std::abs(std::imag(z)) < max);
+   }
+
    /// Series expansion of Li_n(z) in terms of powers of z.
    /// Fast convergence for large n >= 12.
    std::complex<double> Li_series(int64_t n, const std::complex<double>& z) noexcept
@@ -80,7 +88,7 @@ namespace {
          sum_old = sum;
          sum += p;
          p *= z*std::pow(k/(1.0 + k), n);
-         if (!is_finite(p)) { break; }
+         if (is_overflow(p)) { break; }
       } while (sum != sum_old && !is_negligible(p, sum) &&
                k < std::numeric_limits<int64_t>::max() - 2);
 
@@ -181,6 +189,7 @@ namespace {
          sum += neg_eta(n - m)*p;
          p *= lnz2/((m + 1.0)*(m + 2.0));
          if (is_underflow(p)) { return 2.0*sum; }
+         if (!is_finite(p)) { break; }
       }
 
       return 2.0*sum - p;
-- 
2.43.0


From 2a9a8d6477cd0ba72cca777317e4197d1a64329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 13/20] fix: compute log(1+z) for tiny z without evaluating 1 +
 z

If the real part of 1 + z rounds to 1 and the imaginary part is
subnormal (or flushed to zero), log(u)*(z/(u - 1)) has no correct digits.
---
 src/c/log.c         | 19 +++++++++++++++++++
 src/cpp/log.hpp     |  7 +++++++
 src/fortran/log.f90 |  5 +++++
 3 files changed, 31 insertions(+)

diff --git a/src/c/log.c b/src/c/log.c
index 1603ddc..54776bc 100644
--- a/src/c/log.c
+++ b/src/c/log.c
@@ -5,11 +5,18 @@
  * ==================================================================== */
 
 #include <complex.h>
+#include <float.h>
 #include <math.h>
 
 
 float _Complex clog1pf(float _Complex z)
 {
+   const float eps = FLT_EPSILON;
+
+   if (fabsf(crealf(z)) < eps && fabsf(cimagf(z)) < eps) {
+      return z;
+   }
+
    const float _Complex u = 1.0f + z;
    const float rz = crealf(u);
    const float iz = cimagf(u);
@@ -26,6 +33,12 @@ float _Complex clog1pf(float _Complex z)
 
 double _Complex clog1p(double _Complex z)
 {
+   const double eps = DBL_EPSILON;
+
+   if (fabs(creal(z)) < eps && fabs(cimag(z)) < eps) {
+      return z;
+   }
+
    const double _Complex u = 1.0 + z;
    const double rz = creal(u);
    const double iz = cimag(u);
@@ -42,6 +55,12 @@ double _Complex clog1p(double _Complex z)
 
 long double _Complex clog1pl(long double _Complex z)
 {
+   const long double eps = LDBL_EPSILON;
+
+   if (fabsl(creall(z)) < eps && fabsl(cimagl(z)) < eps) {
+      return z;
+   }
+
    const long double _Complex u = 1.0L + z;
    const long double rz = creall(u);
    const long double iz = cimagl(u);
diff --git a/src/cpp/log.hpp b/src/cpp/log.hpp
index c29a0be..43a4cbe 100644
--- a/src/cpp/log.hpp
+++ b/src/cpp/log.hpp
@@ -8,6 +8,7 @@
 
 #include <cmath>
 #include <complex>
+#include <limits>
 
 namespace polylogarithm {
 
@@ -16,6 +17,12 @@ namespace polylogarithm {
 template <typename T>
 std::complex<T> log1p(const std::complex<T>& z) noexcept
 {
+   constexpr T eps = std::numeric_limits<T>::epsilon();
+
+   if (std::abs(std::real(z)) < eps && std::abs(std::imag(z)) < eps) {
+      return z;
+   }
+
    const std::complex<T> u = T(1) + z;
 
    if (std::real(u) == T(1) && std::imag(u) == T(0)) {
diff --git a/src/fortran/log.f90 b/src/fortran/log.f90
index 1f577c3..7f3b7fe 100644
--- a/src/fortran/log.f90
+++ b/src/fortran/log.f90
@@ -35,6 +35,11 @@ double complex function cdlog1p(z)
   double complex :: z, u
   double precision :: re, im
 
+  if (abs(real(z)) .lt. EPSILON(1D0) .and. abs(aimag(z)) .lt. EPSILON(1D0)) then
+     cdlog1p = z
+     return
+  endif
+
   u = 1 + z
   re = real(u)
   im = aimag(u)
-- 
2.43.0


From 4b14ff9338de525ba61dd469557ac5edac05ae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:36 +0000
Subject: [PATCH 14/20] fix: leave Li_series if (k/(k+1))^n overflows in a
 directed rounding mode

---
 src/cpp/Li.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index dfa413f..f45666a 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -87,8 +87,9 @@ namespace {
          k++;
          sum_old = sum;
          sum += p;
-         p *= z*std::pow(k/(1.0 + k), n);
-         if (is_overflow(p)) { break; }
+         const double q = std::pow(k/(1.0 + k), n);
+         p *= z*q;
+         if (is_overflow(p) || is_overflow(q)) { break; }
       } while (sum != sum_old && !is_negligible(p, sum) &&
                k < std::numeric_limits<int64_t>::max() - 2);
 
-- 
2.43.0


From b8b711c9a4ab2858a21001fb895ba8548307dbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:07 +0000
Subject: [PATCH 15/20] fix: compute log|z| accurately for z close to 1 in
 Li(n,z)

---
 src/cpp/Li.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index f45666a..1263b0f 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -42,6 +42,15 @@ namespace {
       } else if (std::imag(z) == 0.0) {
          return { std::log(-std::real(z)), PI };
       }
+
+      const double rem1 = std::real(z) - 1.0;
+
+      if (std::abs(rem1) < 0.5 && std::abs(std::imag(z)) < 0.5) {
+         // avoid the loss of accuracy of log|z| for |z| ~ 1
+         const double x = rem1*(std::real(z) + 1.0) + std::imag(z)*std::imag(z);
+         return { 0.5*std::log1p(x), nonzero_arg(z) };
+      }
+
       return { std::log(std::hypot(std::real(z), std::imag(z))), nonzero_arg(z) };
    }
 
-- 
2.43.0


From c6c97eaece06ee90539df7a6e9ca6776f3ccd4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:21 +0000
Subject: [PATCH 16/20] fix: choose the region of the complex dilogarithm
 correctly if 2*Re(z) overflows

---
 src/c/Li2.c         | 12 ++++++------
 src/cpp/Li2.cpp     | 12 ++++++------
 src/fortran/Li2.f90 |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/c/Li2.c b/src/c/Li2.c
index 87e59fa..c6aad92 100644
--- a/src/c/Li2.c
+++ b/src/c/Li2.c
@@ -341,11 +341,11 @@ float _Complex cli2f(float _Complex z)
          sgn = 1;
       }
    } else { /* rz > 0.5f */
-      if (nz <= 2*rz) {
+      if (nz < 2*rz) {
          u = -clogf(z);
          rest = u*clog1pf(-z) + PI*PI/6;
          sgn = -1;
-      } else { /* nz > 2*rz */
+      } else { /* nz >= 2*rz */
          const float _Complex lz = clogf(-z);
          u = -clog1pf(-1.0f/z);
          rest = -0.5f*lz*lz - PI*PI/6;
@@ -422,11 +422,11 @@ double _Complex cli2(double _Complex z)
          sgn = 1;
       }
    } else { /* rz > 0.5 */
-      if (nz <= 2*rz) {
+      if (nz < 2*rz) {
          u = -clog(z);
          rest = u*clog1p(-z) + PI*PI/6;
          sgn = -1;
-      } else { /* nz > 2*rz */
+      } else { /* nz >= 2*rz */
          const double _Complex lz = clog(-z);
          u = -clog1p(-1.0/z);
          rest = -0.5*lz*lz - PI*PI/6;
@@ -527,11 +527,11 @@ long double _Complex cli2l(long double _Complex z)
          sgn = 1;
       }
    } else { /* rz > 0.5L */
-      if (nz <= 2*rz) {
+      if (nz < 2*rz) {
          u = -clogl(z);
          rest = u * clog1pl(-z) + PI*PI/6;
          sgn = -1;
-      } else { /* nz > 2*rz */
+      } else { /* nz >= 2*rz */
          const long double _Complex lz = clogl(-z);
          u = -clog1pl(-1.0L/z);
          rest = -0.5L*lz*lz - PI*PI/6;
diff --git a/src/cpp/Li2.cpp b/src/cpp/Li2.cpp
index 57bf7d1..19d72dc 100644
--- a/src/cpp/Li2.cpp
+++ b/src/cpp/Li2.cpp
@@ -334,11 +334,11 @@ std::complex<float> Li2(const std::complex<float>& z) noexcept
          sgn = 1;
       }
    } else { // rz > 0.5
-      if (nz <= 2*rz) {
+      if (nz < 2*rz) {
          u = -std::log(z);
          rest = u*log1p(-z) + PI*PI/6;
          sgn = -1;
-      } else { // nz > 2*rz
+      } else { // nz >= 2*rz
          const auto lz = std::log(-z);
          u = -log1p(-1.0f/z);
          rest = -0.5f*lz*lz - PI*PI/6;
@@ -413,11 +413,11 @@ std::complex<double> Li2(const std::complex<double>& z) noexcept
          sgn = 1;
       }
    } else { // rz > 0.5
-      if (nz <= 2*rz) {
+      if (nz < 2*rz) {
          u = -std::log(z);
          rest = u*log1p(-z) + PI*PI/6;
          sgn = -1;
-      } else { // nz > 2*rz
+      } else { // nz >= 2*rz
          const auto lz = std::log(-z);
          u = -log1p(-1.0/z);
          rest = -0.5*lz*lz - PI*PI/6;
@@ -506,11 +506,11 @@ std::complex<long double> Li2(const std::complex<long double>& z) noexcept
          sgn = 1;
       }
    } else { // rz > 0.5L
-      if (nz <= 2*rz) {
+      if (nz < 2*rz) {
          u = -std::log(z);
          rest = u*log1p(-z) + PI*PI/6;
          sgn = -1;
-      } else { // nz > 2*rz
+      } else { // nz >= 2*rz
          const auto lz = std::log(-z);
          u = -log1p(-1.0L/z);
          rest = -0.5L*lz*lz - PI*PI/6;
diff --git a/src/fortran/Li2.f90 b/src/fortran/Li2.f90
index a24114b..c851c02 100644
--- a/src/fortran/Li2.f90
+++ b/src/fortran/Li2.f90
@@ -142,11 +142,11 @@ double complex function cdli2(z)
         sgn = 1
      endif
   else ! rz > 0.5D0
-     if (nz .le. 2*rz) then
+     if (nz .lt. 2*rz) then
         u = -log(z)
         rest = u*cdlog1p(-z) + PI**2/6
         sgn = -1
-     else ! nz > 2*rz
+     else ! nz >= 2*rz
         u = -cdlog1p(-1/z)
         rest = -0.5D0*log(-z)**2 - PI**2/6
         sgn = -1
-- 
2.43.0


From fcb2276c8b7c544da37575e17dce6c0d10b62ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:57 +0000
Subject: [PATCH 17/20] fix: sum over the poles in Li(n,z) for n < -20, the
 series in log(z) stopped before it converged

---
 src/cpp/Li.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 1263b0f..e3e187f 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -157,10 +157,30 @@ namespace {
       return std::pow(z, n);
    }
 
+   /// Sum over the poles of Li_n(z) in log(z), n << 0
+   std::complex<double> Li_poles(int64_t n, const std::complex<double>& lnz) noexcept
+   {
+      const double re = std::real(lnz), im = std::imag(lnz);
+      std::complex<double> sum = stable_pow(-lnz, n - 1);
+
+      for (int k = 1; k < 5; ++k) {
+         sum += std::pow(std::complex<double>(-re, 2*k*PI - im), n - 1) +
+                std::pow(std::complex<double>(-re, -2*k*PI - im), n - 1);
+      }
+
+      return std::tgamma(1.0 - n)*sum;
+   }
+
    /// Series expansion of Li_n(z) around z ~ 1, n < 0
    std::complex<double> Li_unity_neg(int64_t n, const std::complex<double>& z) noexcept
    {
       const std::complex<double> lnz = clog(z);
+
+      if (n < -20) {
+         // the terms of the series increase before they decrease
+         return Li_poles(n, lnz);
+      }
+
       const std::complex<double> lnz2 = lnz*lnz;
       std::complex<double> sum = std::tgamma(1.0 - n)*stable_pow(-lnz, n - 1);
       std::complex<double> lnzk, sum_old, term;
-- 
2.43.0


From 78b03b22360d19ca5fe0bfb0c2309c2396036b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:26 +0000
Subject: [PATCH 18/20] fix: Clausen functions of subnormal angles, half of the
 angle underflowed

Cl1(4.9e-324) was infinite, Cl1(1e-322) accurate to two digits only and
Cl(n,4.9e-324), n = 7, 8, 9, not a number.
---
 src/cpp/Cl.cpp  | 2 +-
 src/cpp/Cl1.cpp | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cpp/Cl.cpp b/src/cpp/Cl.cpp
index 1605f18..322dba2 100644
--- a/src/cpp/Cl.cpp
+++ b/src/cpp/Cl.cpp
@@ -307,7 +307,7 @@ double Cl(int64_t n, double x)
       const double sign1 = is_even((n + 1)/2) ? 1.0 : -1.0;
 
       // first line in Eq.(2.13)
-      const double term1 = x == 0 ? 0
+      const double term1 = x < 1e-300 ? 0 // x/2 may underflow
          : sign1*std::pow(x, n - 1)*inverse_factorial[n - 1] *
            std::log(2*std::sin(x/2));
 
diff --git a/src/cpp/Cl1.cpp b/src/cpp/Cl1.cpp
index cca4465..4437301 100644
--- a/src/cpp/Cl1.cpp
+++ b/src/cpp/Cl1.cpp
@@ -39,6 +39,10 @@ double Cl1(double x) noexcept
       return std::numeric_limits<double>::infinity();
    }
 
+   if (x < 1e-300) { // 0.5*x may underflow
+      return -std::log(x);
+   }
+
    return -std::log(2.0*std::sin(0.5*x));
 }
 
-- 
2.43.0


From 4b872c6f91a19b28ac8bd71f70c7be897d8b0539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:01 +0000
Subject: [PATCH 19/20] fix: Li(n,z) for n < -10 where the powers overflow or
 the series cancel

Li(-300,0.001) was 6.7e307 instead of infinite, Li(-171,z) and below
not a number or infinite where the value is representable, and the
power series for n < -10 lost all digits next to the negative real axis.
---
 src/cpp/Li.cpp | 63 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 12 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index e3e187f..03087e9 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -97,8 +97,13 @@ namespace {
          sum_old = sum;
          sum += p;
          const double q = std::pow(k/(1.0 + k), n);
-         p *= z*q;
-         if (is_overflow(p) || is_overflow(q)) { break; }
+         if (is_overflow(q)) {
+            const double r = std::pow(k/(1.0 + k), 0.25*n);
+            p = (p*r*r)*(z*r*r);
+         } else {
+            p *= z*q;
+         }
+         if (is_overflow(p)) { return sum + p; }
       } while (sum != sum_old && !is_negligible(p, sum) &&
                k < std::numeric_limits<int64_t>::max() - 2);
 
@@ -160,27 +165,59 @@ namespace {
    /// Sum over the poles of Li_n(z) in log(z), n << 0
    std::complex<double> Li_poles(int64_t n, const std::complex<double>& lnz) noexcept
    {
+      constexpr double eps = std::numeric_limits<double>::epsilon();
+
+      if (n < -1000) { // overflow
+         return {inf, inf};
+      }
+
       const double re = std::real(lnz), im = std::imag(lnz);
-      std::complex<double> sum = stable_pow(-lnz, n - 1);
+      const double r = std::hypot(re, im); // distance of the nearest pole
+      std::complex<double> sum = stable_pow(-lnz/r, n - 1);
+
+      for (int k = 1; k < 100; ++k) {
+         const auto p = std::pow(std::complex<double>(-re/r, (2*k*PI - im)/r), n - 1);
+         const auto m = std::pow(std::complex<double>(-re/r, (-2*k*PI - im)/r), n - 1);
+         sum += p + m;
+         if (std::abs(p) < 0.1*eps && std::abs(m) < 0.1*eps) { break; }
+      }
+
+      sum /= r;
 
-      for (int k = 1; k < 5; ++k) {
-         sum += std::pow(std::complex<double>(-re, 2*k*PI - im), n - 1) +
-                std::pow(std::complex<double>(-re, -2*k*PI - im), n - 1);
+      // multiply by Gamma(1-n)/r^(-n)
+      for (int64_t k = 1; k <= -n && !is_overflow(sum); ++k) {
+         sum *= k/r;
       }
 
-      return std::tgamma(1.0 - n)*sum;
+      return sum;
    }
 
-   /// Series expansion of Li_n(z) around z ~ 1, n < 0
-   std::complex<double> Li_unity_neg(int64_t n, const std::complex<double>& z) noexcept
+   /// Li_n(z) for n << 0
+   std::complex<double> Li_neg(int64_t n, const std::complex<double>& z) noexcept
    {
       const std::complex<double> lnz = clog(z);
 
-      if (n < -20) {
-         // the terms of the series increase before they decrease
-         return Li_poles(n, lnz);
+      const double re = std::real(lnz);
+
+      // the largest terms of the power series are a few adjacent ones
+      if (n > -0.5*re*re) {
+         if (re <= 0) {
+            return Li_series(n, z);
+         }
+         // inversion formula
+         const auto li = Li_series(n, 1.0/z);
+         return is_even(n) ? -li : li;
       }
 
+      const auto li = Li_poles(n, lnz);
+      return std::imag(z) == 0 ? std::real(li) : li;
+   }
+
+   /// Series expansion of Li_n(z) around z ~ 1, n < 0
+   std::complex<double> Li_unity_neg(int64_t n, const std::complex<double>& z) noexcept
+   {
+      const std::complex<double> lnz = clog(z);
+
       const std::complex<double> lnz2 = lnz*lnz;
       std::complex<double> sum = std::tgamma(1.0 - n)*stable_pow(-lnz, n - 1);
       std::complex<double> lnzk, sum_old, term;
@@ -253,6 +290,8 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
       return {zeta(n), std::imag(z)};
    } else if (z == -1.0) {
       return {neg_eta(n), std::imag(z)};
+   } else if (n < -10) {
+      return Li_neg(n, z);
    } else if (n < -1) {
       // arXiv:2010.09860
       const double nz = std::norm(z);
-- 
2.43.0


From faf95068d0545eb91043db67ad5a5c275615c8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:37 +0000
Subject: [PATCH 20/20] fix: Li(n,z) for n < -1000, overflow of a product in
 the power series

Li(-1289,-4e-130-1e-130i) was not a number instead of 1e256.
---
 src/cpp/Li.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 03087e9..68ec866 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -96,12 +96,12 @@ namespace {
          k++;
          sum_old = sum;
          sum += p;
-         const double q = std::pow(k/(1.0 + k), n);
-         if (is_overflow(q)) {
+         if (n < -1000) { // (k/(1 + k))^n may overflow
             const double r = std::pow(k/(1.0 + k), 0.25*n);
-            p = (p*r*r)*(z*r*r);
+            const auto zr = z*r*r;
+            p = std::abs(p) < 1.0 ? (p*r*r)*zr : (p*zr)*r*r;
          } else {
-            p *= z*q;
+            p *= z*std::pow(k/(1.0 + k), n);
          }
          if (is_overflow(p)) { return sum + p; }
       } while (sum != sum_old && !is_negligible(p, sum) &&
-- 
2.43.0

