From 03aa65c7efedba27f98a45dbf5b525f848ea4d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 01/46] fix: inviscid MMS exact solution squares the sines, not
 their arguments

The source term of the 3D inviscid manufactured solution is the divergence of
the flux of a state with sin^2(pi x) and sin^2(2 pi x); the exact solution
evaluated sin(pi x^2) and sin(2 pi x^2) instead.
---
 src/physics/fluidflow/euler_fluxes.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/physics/fluidflow/euler_fluxes.hpp b/src/physics/fluidflow/euler_fluxes.hpp
index 213e4db..98aa691 100644
--- a/src/physics/fluidflow/euler_fluxes.hpp
+++ b/src/physics/fluidflow/euler_fluxes.hpp
@@ -1289,9 +1289,9 @@ void InviscidMMSExact(int dim, const xdouble *x, xdouble *u)
          const double scale = 1.0;
          const double T0    = 1.0;
          const double Tp    = 0.1;
-         u[0] = rho0 + rhop*(sin(M_PI*pow((x[0] + trans)/scale,2.0)))*sin(M_PI*(x[1]+trans)/scale);
-         u[1] = 4*u0*((x[1]+trans)/scale)*(1 - ((x[1]+trans)/scale)) + up*sin(2*M_PI*(x[1]+trans)/scale)*(sin(M_PI*pow((x[0]+trans)/scale,2.0)));
-         u[2] = -up*(sin(2*M_PI*pow((x[0]+trans)/scale,2.0)))*sin(M_PI*(x[1]+trans)/scale);
+         u[0] = rho0 + rhop*pow(sin(M_PI*(x[0]+trans)/scale),2.0)*sin(M_PI*(x[1]+trans)/scale);
+         u[1] = 4*u0*((x[1]+trans)/scale)*(1 - ((x[1]+trans)/scale)) + up*sin(2*M_PI*(x[1]+trans)/scale)*pow(sin(M_PI*(x[0]+trans)/scale),2.0);
+         u[2] = -up*pow(sin(2*M_PI*(x[0]+trans)/scale),2.0)*sin(M_PI*(x[1]+trans)/scale);
          u[3] = 0.0;
          double Tem  = T0 + Tp*(pow(((x[0]+trans)/scale),4.0) - 2.0*pow(((x[0]+trans)/scale),3.0) + pow(((x[0]+trans)/scale),2.0) 
                      + pow(((x[1]+trans)/scale),4.0) - 2.0*pow(((x[1]+trans)/scale),3.0) + pow(((x[1]+trans)/scale),2.0));
-- 
2.43.0


From e4346c3add8b72800aef14ae05f82d0ea473b0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 02/46] fix: 3D viscous MMS uses the z coordinate and the w
 velocity

The exact solution read x[3] (out of bounds) for the z coordinate, and the
energy source contained z^2 in place of the square of the third velocity.
---
 .../fluidflow/navier_stokes_fluxes.hpp        | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/physics/fluidflow/navier_stokes_fluxes.hpp b/src/physics/fluidflow/navier_stokes_fluxes.hpp
index 4347f77..58a9645 100644
--- a/src/physics/fluidflow/navier_stokes_fluxes.hpp
+++ b/src/physics/fluidflow/navier_stokes_fluxes.hpp
@@ -372,7 +372,7 @@ void viscousMMSExact(int dim, const xdouble *x, xdouble *u)
             const double w_0 = 0.5;
             const double T_0 = 1.0;
 
-            u[0] = r_0 + r_0*0.1*sin(2*r_xyz*M_PI*x[0])*sin(2*r_xyz*M_PI*x[1])*sin(2*r_xyz*M_PI*x[3]);
+            u[0] = r_0 + r_0*0.1*sin(2*r_xyz*M_PI*x[0])*sin(2*r_xyz*M_PI*x[1])*sin(2*r_xyz*M_PI*x[2]);
             u[1] = u_0*((pow(x[0],3)/3. - pow(x[0],2)/2.) + (pow(x[1],3)/3. - pow(x[1],2)/2.) + (pow(x[2],3)/3. - pow(x[2],2)/2.)); 
             u[2] = v_0*((pow(x[0],3)/3. - pow(x[0],2)/2.) + (pow(x[1],3)/3. - pow(x[1],2)/2.) + (pow(x[2],3)/3. - pow(x[2],2)/2.)); 
             u[3] = w_0*((pow(x[0],3)/3. - pow(x[0],2)/2.) + (pow(x[1],3)/3. - pow(x[1],2)/2.) + (pow(x[2],3)/3. - pow(x[2],2)/2.)); 
@@ -489,35 +489,35 @@ void calcViscousMMS(int dim, double mu, double Pr, const xdouble *x, xdouble *sr
                 - 6*w_0*x[0]*(x[0] - 1)*(u_0*x[2]*(x[2] - 1) + w_0*x[0]*(x[0] - 1)) - 6*w_0*x[1]*(x[1] - 1)*(v_0*x[2]*(x[2] - 1) + w_0*x[1]*(x[1] - 1)) 
                 + 4.0*w_0*x[2]*(x[2] - 1)*(u_0*x[0]*(x[0] - 1) + v_0*x[1]*(x[1] - 1) - 2*w_0*x[2]*(x[2] - 1))) + r_0*u_0*x[0]*(72*T_0 + (gamma - 1)*(72*T_0 + pow(u_0, 2)*pow(2*pow(x[0], 3) 
                 - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) 
-                + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) + 36*pow(x[2], 2)))*(x[0] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
+                + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2)))*(x[0] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
                 + r_0*u_0*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[0]) 
                 + (gamma - 1)*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[0]) 
                 + 0.033333333333333333*M_PI*r_xyz*(pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2))*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[0]) + 2*x[0]*(pow(u_0, 2) 
-                + pow(v_0, 2))*(x[0] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) 
+                + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2))*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[0]) + 2*x[0]*(pow(u_0, 2) 
+                + pow(v_0, 2) + pow(w_0, 2))*(x[0] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) 
                 + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2))))*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2)) + r_0*v_0*x[1]*(72*T_0 + (gamma - 1)*(72*T_0 + pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2)))*(x[1] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
+                + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2)))*(x[1] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
                 + r_0*v_0*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[1]) 
                 + (gamma - 1)*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[1]) 
                 + 0.033333333333333333*M_PI*r_xyz*(pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2))*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[1]) + 2*x[1]*(pow(u_0, 2) 
-                + pow(v_0, 2))*(x[1] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) 
+                + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2))*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[1]) + 2*x[1]*(pow(u_0, 2) 
+                + pow(v_0, 2) + pow(w_0, 2))*(x[1] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) 
                 + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2))))*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2)) + r_0*w_0*x[2]*(72*T_0 + (gamma - 1)*(72*T_0 + pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2)))*(x[2] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
+                + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2)))*(x[2] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
                 + r_0*w_0*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*cos(2*M_PI*r_xyz*x[2]) 
                 + (gamma - 1)*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*cos(2*M_PI*r_xyz*x[2]) 
                 + 0.033333333333333333*M_PI*r_xyz*(pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) 
                 + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2))*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*cos(2*M_PI*r_xyz*x[2]) 
+                + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2))*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*cos(2*M_PI*r_xyz*x[2]) 
                 + 2*x[2]*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(pow(u_0, 2)*(x[2] - 1)*(2*pow(x[0], 3) 
                 - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)) + pow(v_0, 2)*(x[2] - 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) 
-                - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)) + 6)))*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)))/(gamma - 1);    
+                - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)) + pow(w_0, 2)*(x[2] - 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)))))*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)))/(gamma - 1);    
             // src[0] = 10.0;
             // src[1] = 11.0;
             // src[2] = 12.0;
-- 
2.43.0


From 5da8cea7cd8a11870aa6357b86b9eb505be959a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 03/46] fix: degenerate cubic line-search interpolant returns
 its minimiser, not the negated one

---
 src/common/linesearch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/linesearch.cpp b/src/common/linesearch.cpp
index 2d3cd77..efc3cc4 100644
--- a/src/common/linesearch.cpp
+++ b/src/common/linesearch.cpp
@@ -40,7 +40,7 @@ double cubic_interp(double phi0,
 
    if (abs(a) < std::numeric_limits<double>::epsilon())
    {
-      return dphi0 / (2 * b);
+      return -dphi0 / (2 * b);
    }
    else
    {
-- 
2.43.0


From da22c8e383057a08cd911eac93891fd3291b5eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:22 +0000
Subject: [PATCH 04/46] fix: inexact Newton interpolates the residual norm with
 its slope along the step

p'(0) is -r.(J c), not -c.(J r) (they agree only for a symmetric Jacobian),
and after a backtrack the step is s c, so the slope scales with s.
---
 src/common/inexact_newton.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/inexact_newton.cpp b/src/common/inexact_newton.cpp
index 0e3bdfd..f74b3d7 100644
--- a/src/common/inexact_newton.cpp
+++ b/src/common/inexact_newton.cpp
@@ -21,10 +21,10 @@ double InexactNewton::ComputeStepSize(const Vector &x,
    Vector temp(r.Size());
 
    double p0 = 0.5 * norm * norm;
-   // temp=F'(x_i)*r(x_i)
-   jac->Mult(r, temp);
+   // temp=F'(x_i)*c
+   jac->Mult(c, temp);
    // c is the negative inexact newton step size.
-   double p0p = -Dot(c, temp);
+   double p0p = -Dot(r, temp);
    // Calculate the new norm.
 
    add(x, -1.0, c, x_new);
@@ -42,7 +42,7 @@ double InexactNewton::ComputeStepSize(const Vector &x,
    {
       double p1 = 0.5 * err_new * err_new;
       // Quadratic interpolation between [0,1]
-      theta = quadInterp(0.0, p0, p0p, 1.0, p1);
+      theta = quadInterp(0.0, p0, s * p0p, 1.0, p1);
       theta = (theta > theta_min) ? theta : theta_min;
       theta = (theta < theta_max) ? theta : theta_max;
       // set the new trial step size.
-- 
2.43.0


From c81903633a6c6e947a2bc28702b776edd7040f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:23 +0000
Subject: [PATCH 05/46] fix: bisection finds a root at an end of the bracket

A zero at xl or xr fell through to 'break' and the midpoint was returned
as the root; converging in the last allowed iteration threw.
---
 src/utils/utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 4c345f1..7338610 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -306,12 +306,12 @@ double bisection(const std::function<double(double)> &func,
    {
       iter++;
       // cout << "iter = " << iter << ": f(x) = " << fm << endl;
-      if (fm * fl < 0.0)
+      if (fm * fl <= 0.0)
       {
          xr = xm;
          fr = fm;
       }
-      else if (fm * fr < 0.0)
+      else if (fm * fr <= 0.0)
       {
          xl = xm;
          fl = fm;
@@ -323,7 +323,7 @@ double bisection(const std::function<double(double)> &func,
       xm = 0.5 * (xl + xr);
       fm = func(xm);
    }
-   if (iter >= maxiter)
+   if ((abs(fm) > ftol) && (abs(xr - xl) > xtol))
    {
       cerr << "bisection: failed to find a solution in maxiter." << endl;
       throw(-1);
-- 
2.43.0


From 5d7bb030e5c664138eac44997de374792da95500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:33 +0000
Subject: [PATCH 06/46] fix: secant reports failure to converge instead of
 returning the last iterate

The test after the loop, iter > maxiter, could never hold.
---
 src/utils/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 7338610..6939f5d 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -365,7 +365,7 @@ double secant(const std::function<double(double)> &func,
          f = func(x);
          if (fabs(dx) < xtol)
          {
-            break;
+            return x;
          }
          x1 = x2;
          f1 = f2;
@@ -377,7 +377,7 @@ double secant(const std::function<double(double)> &func,
          cerr << "secant: " << exception.what() << endl;
       }
    }
-   if (iter > maxiter)
+   if (fabs(f) > ftol)
    {
       throw MISOException("secant: maximum number of iterations exceeded");
    }
-- 
2.43.0


From 99f61b4b66812465df7e67dd4a805663bc36ddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:25 +0000
Subject: [PATCH 07/46] fix: unknown ODE solver type raises the documented
 exception

---
 src/common/ode.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/ode.cpp b/src/common/ode.cpp
index f4a4a82..327ccac 100644
--- a/src/common/ode.cpp
+++ b/src/common/ode.cpp
@@ -246,8 +246,7 @@ void FirstOrderODE::setTimestepper(const nlohmann::json &ode_options)
    }
    else
    {
-      throw MISOException("Unknown ODE solver type: " +
-                          ode_options["ode-solver"].get<std::string>());
+      throw MISOException("Unknown ODE solver type: " + timestepper);
       // TODO: parallel exit
    }
    ode_solver_->Init(*this);
-- 
2.43.0


From 6b159d845dffaf0f5df66cd3d596a0acb77515a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 08/46] fix: SumOfOperators ignores terms with zero coefficient
 and sizes its result by rows

---
 src/common/matrix_operators.cpp | 12 ++++++++++--
 src/common/matrix_operators.hpp |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/common/matrix_operators.cpp b/src/common/matrix_operators.cpp
index 6412dac..d1e1a8a 100644
--- a/src/common/matrix_operators.cpp
+++ b/src/common/matrix_operators.cpp
@@ -16,7 +16,7 @@ SumOfOperators::SumOfOperators(double alpha,
    b(beta),
    oper_a(&oper1),
    oper_b(&oper2),
-   work_vec(oper1.Width())
+   work_vec(oper1.Height())
 {
    if ((oper_a->Height() != oper_b->Height()) ||
        (oper_a->Width() != oper_b->Width()))
@@ -38,7 +38,7 @@ void SumOfOperators::Add(double alpha,
 
 void SumOfOperators::Mult(const Vector &x, Vector &y) const
 {
-   y.SetSize(x.Size());
+   y.SetSize(height);
    const double zero = 1e-16;
    if (fabs(a) > zero)
    {
@@ -48,6 +48,10 @@ void SumOfOperators::Mult(const Vector &x, Vector &y) const
          work_vec *= a;
       }
    }
+   else
+   {
+      work_vec = 0.0;
+   }
    if (fabs(b) > zero)
    {
       oper_b->Mult(x, y);
@@ -56,6 +60,10 @@ void SumOfOperators::Mult(const Vector &x, Vector &y) const
          y *= b;
       }
    }
+   else
+   {
+      y = 0.0;
+   }
    y += work_vec;
 }
 
diff --git a/src/common/matrix_operators.hpp b/src/common/matrix_operators.hpp
index 66ad0d7..de5efbe 100644
--- a/src/common/matrix_operators.hpp
+++ b/src/common/matrix_operators.hpp
@@ -21,7 +21,7 @@ public:
       b(0.0),
       oper_a(nullptr),
       oper_b(nullptr),
-      work_vec(width)
+      work_vec(height)
    { }
 
    /// Construct an empty operator with a pre-defined height
-- 
2.43.0


From 402118b5c30957a25a8296c6d3a889bf4cc9086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 09/46] fix: JacobianFree with zero scaling contributes zero
 instead of leaving the result unset

---
 src/common/matrix_operators.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/matrix_operators.cpp b/src/common/matrix_operators.cpp
index d1e1a8a..f16b1f2 100644
--- a/src/common/matrix_operators.cpp
+++ b/src/common/matrix_operators.cpp
@@ -111,6 +111,10 @@ void JacobianFree::Mult(const mfem::Vector &x, mfem::Vector &y) const
          y *= scale;
       }
    }
+   else
+   {
+      y = 0.0;
+   }
    if (explicit_part)
    {
       // Include contribution from explicit operator, if necessary
-- 
2.43.0


From 807a8866d75f54bbfb3265fd02b6bc4e7af3abe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:30 +0000
Subject: [PATCH 10/46] fix: InviscidIntegrator Jacobian loops over its own
 number of states

---
 src/physics/fluidflow/inviscid_integ_def.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/fluidflow/inviscid_integ_def.hpp b/src/physics/fluidflow/inviscid_integ_def.hpp
index 54a7a80..c32629b 100644
--- a/src/physics/fluidflow/inviscid_integ_def.hpp
+++ b/src/physics/fluidflow/inviscid_integ_def.hpp
@@ -123,9 +123,9 @@ void InviscidIntegrator<Derived>::AssembleElementGrad(
          {
             // get the entry of (Q^T)_{j,i} = Q_{i,j}
             double Q = alpha * sbp.getQ(di, i, j);
-            for (int n = 0; n < dim + 2; ++n)
+            for (int n = 0; n < num_states; ++n)
             {
-               for (int m = 0; m < dim + 2; ++m)
+               for (int m = 0; m < num_states; ++m)
                {
                   elmat(m * num_nodes + j, n * num_nodes + i) -=
                       Q * flux_jaci(m, n);
-- 
2.43.0


From 42819f55f59d45c0925c982a13c572b13fb05d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:30 +0000
Subject: [PATCH 11/46] fix: LPSIntegrator Jacobian includes the stabilisation
 coefficient

---
 src/physics/fluidflow/inviscid_integ_def.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/inviscid_integ_def.hpp b/src/physics/fluidflow/inviscid_integ_def.hpp
index c32629b..1a5a411 100644
--- a/src/physics/fluidflow/inviscid_integ_def.hpp
+++ b/src/physics/fluidflow/inviscid_integ_def.hpp
@@ -410,7 +410,7 @@ void LPSIntegrator<Derived>::AssembleElementGrad(
          }
       }
    }
-   elmat *= alpha;
+   elmat *= alpha * lps_coeff;
 }
 
 template <typename Derived>
-- 
2.43.0


From e53c8a34f1ddfd4ee2f77addcd60ea24042f8bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:30 +0000
Subject: [PATCH 12/46] fix: InviscidFaceIntegrator functional is scaled by
 alpha

---
 src/physics/fluidflow/inviscid_integ_def.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/inviscid_integ_def.hpp b/src/physics/fluidflow/inviscid_integ_def.hpp
index 1a5a411..9b793bc 100644
--- a/src/physics/fluidflow/inviscid_integ_def.hpp
+++ b/src/physics/fluidflow/inviscid_integ_def.hpp
@@ -665,7 +665,7 @@ double InviscidFaceIntegrator<Derived>::GetFaceEnergy(
       trans.Face->SetIntPoint(&ip_face);
       CalcOrtho(trans.Face->Jacobian(), nrm);
       nrm *= ip_face.weight;
-      fun += iFaceFun(nrm, u_face_left, u_face_right);
+      fun += iFaceFun(nrm, u_face_left, u_face_right) * alpha;
    }
    return fun;
 }
-- 
2.43.0


From 375a34accd28c62cbf3dfe17463d61758e84141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:30 +0000
Subject: [PATCH 13/46] fix: InviscidFaceIntegrator Jacobian scales the flux,
 not the normal, by alpha

---
 src/physics/fluidflow/inviscid_integ_def.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/inviscid_integ_def.hpp b/src/physics/fluidflow/inviscid_integ_def.hpp
index 9b793bc..c048a76 100644
--- a/src/physics/fluidflow/inviscid_integ_def.hpp
+++ b/src/physics/fluidflow/inviscid_integ_def.hpp
@@ -810,10 +810,12 @@ void InviscidFaceIntegrator<Derived>::AssembleFaceGrad(
       // get the normal vector and the flux Jacobians on the face
       trans.Face->SetIntPoint(&ip_face);
       CalcOrtho(trans.Face->Jacobian(), nrm);
-      nrm *= alpha * ip_face.weight;
+      nrm *= ip_face.weight;
       // flux(nrm, u_face_left, u_face_right, flux_face);
       fluxJacStates(
           nrm, u_face_left, u_face_right, flux_jac_left, flux_jac_right);
+      flux_jac_left *= alpha;
+      flux_jac_right *= alpha;
 
       // insert flux Jacobians into element stiffness matrices
       const int offset = num_states * num_nodes_left;
-- 
2.43.0


From fde370eb958cae113633ec777307082a5d819194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:46 +0000
Subject: [PATCH 14/46] fix: ViscousBoundaryIntegrator scales all of its
 residual and Jacobian by alpha

---
 src/physics/fluidflow/viscous_integ_def.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/viscous_integ_def.hpp b/src/physics/fluidflow/viscous_integ_def.hpp
index b488822..6831b57 100644
--- a/src/physics/fluidflow/viscous_integ_def.hpp
+++ b/src/physics/fluidflow/viscous_integ_def.hpp
@@ -444,7 +444,7 @@ void ViscousBoundaryIntegrator<Derived>::AssembleFaceVector(
             for (int s = 0; s < num_states; ++s)
             {
                // Dwi(s,d) += Qij * wj(s);
-               res(j, s) += Qij * Dwi(s, d);
+               res(j, s) += alpha * Qij * Dwi(s, d);
             }
          }  // d loop
       }     // j loop
@@ -614,6 +614,7 @@ void ViscousBoundaryIntegrator<Derived>::AssembleFaceGrad(
          }  // d loop
       }     // j loop
    }        // k/i loop
+   elmat *= alpha;
 }
 
 }  // namespace miso
-- 
2.43.0


From 140b37593807964b15430df5534ff9479efb40fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:37 +0000
Subject: [PATCH 15/46] fix: jacobiPoly: constant term of the degree-1 Jacobi
 polynomial is alpha - beta

The comment above the line and the three-term recurrence both use
alpha - beta; with alpha + beta every polynomial with beta != 0 and
degree >= 1 was wrong.
---
 src/common/orthopoly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/orthopoly.cpp b/src/common/orthopoly.cpp
index 6d775c4..f248981 100644
--- a/src/common/orthopoly.cpp
+++ b/src/common/orthopoly.cpp
@@ -83,7 +83,7 @@ void jacobiPoly(const Vector &x,
    double gamma1 = (alpha + 1) * (beta + 1) * gamma0 / (alpha + beta + 3);
    // Set poly_1(:) = ((alpha+beta+2)*x(:) + (alpha-beta))*0.5/sqrt(gamma1)
    Vector poly_1(size);
-   poly_1 = alpha + beta;
+   poly_1 = alpha - beta;
    add(poly_1, alpha + beta + 2, x, poly_1);
    poly_1 *= 0.5 / sqrt(gamma1);
    if (degree == 1)
-- 
2.43.0


From af8867fb2a9eaac8e600984ee2a130c2656d6a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:50 +0000
Subject: [PATCH 16/46] fix: SBPSegmentElement::CalcShape: scale the basis by
 sqrt(2) at non-nodal points

The constructor scales V by sqrt(2) for the segment [0,1]; CalcShape used
2, so the shape functions away from the nodes summed to sqrt(2) and did not
reproduce polynomials.
---
 src/common/sbp_fe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/sbp_fe.cpp b/src/common/sbp_fe.cpp
index bc4de9c..10fc5f5 100644
--- a/src/common/sbp_fe.cpp
+++ b/src/common/sbp_fe.cpp
@@ -453,7 +453,7 @@ void SBPSegmentElement::CalcShape(const IntegrationPoint &ip,
       for (int i = 0; i <= order; ++i)
       {
          miso::jacobiPoly(xvec, 0.0, 0.0, i, poly);
-         poly *= 2.0;  // scale to mfem reference element
+         poly *= sqrt(2.0);  // scale to mfem reference element
          for (int k = 0; k < GetDof(); ++k)
          {
             shape(k) += poly(0) * V(k, ptr) * H(k);
-- 
2.43.0


From ad9e16de64965f880561c11deecf0346996c916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:50 +0000
Subject: [PATCH 17/46] fix: SBP CalcDShape: divide row i of Q by H(i)

The columns of dshape are the ith rows of D = H^{-1} Q, so every entry is
divided by the norm at the node i; entry j was divided by H(j), which does
not differentiate even linear functions unless all norm entries agree.
---
 src/common/sbp_fe.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/sbp_fe.cpp b/src/common/sbp_fe.cpp
index 10fc5f5..e79ae0c 100644
--- a/src/common/sbp_fe.cpp
+++ b/src/common/sbp_fe.cpp
@@ -503,7 +503,7 @@ void SBPSegmentElement::CalcDShape(const IntegrationPoint &ip,
    Vector tempVec(dof);
    Q[0].GetColumnReference(ipIdx, tempVec);
    dshape.SetCol(0, tempVec);
-   dshape.InvLeftScaling(H);
+   dshape *= 1.0 / H(ipIdx);
 }
 
 // //////////////////////////////////////////////////////////////////////////
@@ -923,7 +923,7 @@ void SBPTriangleElement::CalcDShape(const IntegrationPoint &ip,
    dshape.SetCol(0, tempVec);
    Q[1].GetColumnReference(ipIdx, tempVec);
    dshape.SetCol(1, tempVec);
-   dshape.InvLeftScaling(H);
+   dshape *= 1.0 / H(ipIdx);
 }
 
 SBPTetrahedronElement::SBPTetrahedronElement(const int degree, const int num_nodes)
@@ -1121,7 +1121,7 @@ void SBPTetrahedronElement::CalcDShape(const IntegrationPoint &ip, DenseMatrix &
    dshape.SetCol(1, tempVec);
    Q[2].GetColumnReference(ipIdx, tempVec);
    dshape.SetCol(2, tempVec);
-   dshape.InvLeftScaling(H);
+   dshape *= 1.0 / H(ipIdx);
 }
 
 SBPCollection::SBPCollection(const int p, const int dim)
-- 
2.43.0


From 7845fcb3772fa2ea4b7af2916fcd04efcd89b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:50 +0000
Subject: [PATCH 18/46] fix: SBP CalcDShape: reject points that are not nodes

The index stayed -1 and column -1 of the operators was read.
---
 src/common/sbp_fe.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/sbp_fe.cpp b/src/common/sbp_fe.cpp
index e79ae0c..aa63b49 100644
--- a/src/common/sbp_fe.cpp
+++ b/src/common/sbp_fe.cpp
@@ -497,6 +497,7 @@ void SBPSegmentElement::CalcDShape(const IntegrationPoint &ip,
          }
       }
    }
+   MFEM_VERIFY(ipIdx >= 0, "provided ip is not a node of given element!");
    // TODO: I think we can make tempVec an empty Vector, since it is just a
    // reference
    dshape = 0.0;
@@ -916,6 +917,7 @@ void SBPTriangleElement::CalcDShape(const IntegrationPoint &ip,
          }
       }
    }
+   MFEM_VERIFY(ipIdx >= 0, "provided ip is not a node of given element!");
    dshape = 0.0;
 
    Vector tempVec(dof);
@@ -1112,6 +1114,7 @@ void SBPTetrahedronElement::CalcDShape(const IntegrationPoint &ip, DenseMatrix &
          }
       }
    }
+   MFEM_VERIFY(ipIdx >= 0, "provided ip is not a node of given element!");
    dshape = 0.0;
 
    Vector tempVec(dof);
-- 
2.43.0


From e5d7c098c7131af0aac88463bc3e19b19ea2e860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:02 +0000
Subject: [PATCH 19/46] fix: degree 0 triangle operators: make them diagonal E
 like all the others

SBPTriangleElement is documented as a diagonal-E operator, and getSymEntry,
getQEntry and the face integrators rely on it: with the consistent-mass
boundary matrix of the old tables getQEntry did not annihilate constants
and Q + Q^T was not the boundary quadrature of the degree 0 segment.  The
skew-symmetric part is unchanged.
---
 src/common/data/sbp_operators.hpp | 36 +++++++++++++++----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/common/data/sbp_operators.hpp b/src/common/data/sbp_operators.hpp
index 557c6e3..e811442 100644
--- a/src/common/data/sbp_operators.hpp
+++ b/src/common/data/sbp_operators.hpp
@@ -99,24 +99,24 @@ const double p4Qx_seg[36] = {-0.5,
 
 /// SBP Triangle Qx and Qy matrix data arrays, stored in row major format;
 /// Thus, when loaded into mfem::DenseMatrix, we store the transposed operator.
-const double p0Qx_tri[9] = {-0.1666666666666664,
-                            0.16666666666666685,
-                            2.220446049250313e-16,
-                            -0.16666666666666685,
-                            0.16666666666666624,
-                            -3.3306690738754696e-16,
-                            -0.16666666666666646,
-                            0.16666666666666657,
-                            1.6653345369377348e-16};
-const double p0Qy_tri[9] = {-0.16666666666666624,
-                            3.3306690738754696e-16,
-                            0.1666666666666668,
-                            -0.16666666666666657,
-                            -1.6653345369377348e-16,
-                            0.16666666666666652,
-                            -0.1666666666666668,
-                            -2.914335439641036e-16,
-                            0.1666666666666664};
+const double p0Qx_tri[9] = {-0.25,
+                            0.16666666666666666,
+                            0.08333333333333333,
+                            -0.16666666666666666,
+                            0.25,
+                            -0.08333333333333333,
+                            -0.08333333333333333,
+                            0.08333333333333333,
+                            0.0};
+const double p0Qy_tri[9] = {-0.25,
+                            0.08333333333333333,
+                            0.16666666666666666,
+                            -0.08333333333333333,
+                            0.0,
+                            0.08333333333333333,
+                            -0.16666666666666666,
+                            -0.08333333333333333,
+                            0.25};
 
 const double p1Qx_tri[49] = {-0.08333333333333333,
                              -0.0054119803382487505,
-- 
2.43.0


From d6d40c262b9c123acda36c04707dc266bcff3515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:46 +0000
Subject: [PATCH 20/46] fix: SBPSegmentElement: order the interior nodes like
 the edges of the triangle

The element is documented to be ordered consistently with the edges of
SBPTriangleElement, and SBPCollection's orientation tables assume it, but
the pairs were listed from the ends inward with the mid-point last: on
meshes with degree 3 and 4 elements the unknowns of an edge were attached
to the wrong nodes of the boundary segment.
---
 src/common/data/sbp_operators.hpp | 56 +++++++++++++++----------------
 src/common/sbp_fe.cpp             | 23 ++++++++-----
 2 files changed, 42 insertions(+), 37 deletions(-)

diff --git a/src/common/data/sbp_operators.hpp b/src/common/data/sbp_operators.hpp
index e811442..6d3a378 100644
--- a/src/common/data/sbp_operators.hpp
+++ b/src/common/data/sbp_operators.hpp
@@ -36,65 +36,65 @@ const double p2Qx_seg[16] = {-0.5,
 
 const double p3Qx_seg[25] = {-0.5000000000000002,
                              -0.0500000000000001,
+                             -0.26666666666667205,
                              0.6756502488724212,
                              0.14101641779424046,
-                             -0.26666666666667205,
                              0.0500000000000001,
                              0.5000000000000002,
+                             0.26666666666667255,
                              -0.14101641779424054,
                              -0.6756502488724213,
-                             0.26666666666667255,
+                             0.26666666666667205,
+                             -0.26666666666667255,
+                             0.0,
+                             -0.9504601441389896,
+                             0.9504601441389896,
                              -0.6756502488724212,
                              0.14101641779424054,
+                             0.9504601441389896,
                              0.0,
                              -0.415826313060808,
-                             0.9504601441389896,
                              -0.14101641779424046,
                              0.6756502488724213,
-                             0.415826313060808,
-                             0.0,
-                             -0.9504601441389896,
-                             0.26666666666667205,
-                             -0.26666666666667255,
                              -0.9504601441389896,
-                             0.9504601441389896,
+                             0.415826313060808,
                              0.0};
 
 const double p4Qx_seg[36] = {-0.5,
                              0.03333333333333333,
-                             0.676094395754648,
-                             -0.08999422094603349,
                              -0.26907915135368776,
                              0.14964564321174234,
+                             0.676094395754648,
+                             -0.08999422094603349,
                              -0.03333333333333333,
                              0.5,
-                             0.08999422094603403,
-                             -0.6760943957546471,
                              -0.14964564321174223,
                              0.26907915135368754,
-                             -0.676094395754648,
-                             -0.08999422094603403,
-                             0.0,
-                             0.24735136431306004,
-                             0.9550538393084307,
-                             -0.43631658692081304,
-                             0.08999422094603349,
-                             0.6760943957546471,
-                             -0.24735136431306004,
-                             0.0,
-                             0.43631658692081254,
-                             -0.9550538393084305,
+                             0.08999422094603403,
+                             -0.6760943957546471,
                              0.26907915135368776,
                              0.14964564321174223,
-                             -0.9550538393084307,
-                             -0.43631658692081254,
                              0.0,
                              0.9726456316638089,
+                             -0.9550538393084307,
+                             -0.43631658692081254,
                              -0.14964564321174234,
                              -0.26907915135368754,
+                             -0.9726456316638089,
+                             0.0,
                              0.43631658692081304,
                              0.9550538393084305,
-                             -0.9726456316638089,
+                             -0.676094395754648,
+                             -0.08999422094603403,
+                             0.9550538393084307,
+                             -0.43631658692081304,
+                             0.0,
+                             0.24735136431306004,
+                             0.08999422094603349,
+                             0.6760943957546471,
+                             0.43631658692081254,
+                             -0.9550538393084305,
+                             -0.24735136431306004,
                              0.0};
 
 /// SBP Triangle Qx and Qy matrix data arrays, stored in row major format;
diff --git a/src/common/sbp_fe.cpp b/src/common/sbp_fe.cpp
index aa63b49..29cbd7f 100644
--- a/src/common/sbp_fe.cpp
+++ b/src/common/sbp_fe.cpp
@@ -360,18 +360,23 @@ SBPSegmentElement::SBPSegmentElement(const int degree)
    Nodes.IntPoint(0).weight = wts(0);
    Nodes.IntPoint(1).x = pts(num_nodes - 1);
    Nodes.IntPoint(1).weight = wts(num_nodes - 1);
-   for (int i = 0; i < (num_nodes - 2) / 2; ++i)
-   {
-      Nodes.IntPoint(2 * (i + 1)).x = pts(i + 1);
-      Nodes.IntPoint(2 * (i + 1)).weight = wts(i + 1);
-      Nodes.IntPoint(2 * (i + 1) + 1).x = 1.0 - pts(i + 1);
-      Nodes.IntPoint(2 * (i + 1) + 1).weight = wts(i + 1);
-   }
+   // interior nodes are listed from the middle outward, like on the edges of
+   // SBPTriangleElement
+   int ptr = 2;
    if (num_nodes % 2 == 1)
    {
       // Account for mid-point node
-      Nodes.IntPoint(num_nodes - 1).x = pts((num_nodes - 1) / 2);
-      Nodes.IntPoint(num_nodes - 1).weight = wts((num_nodes - 1) / 2);
+      Nodes.IntPoint(ptr).x = pts((num_nodes - 1) / 2);
+      Nodes.IntPoint(ptr).weight = wts((num_nodes - 1) / 2);
+      ++ptr;
+   }
+   for (int i = (num_nodes - 2) / 2; i > 0; --i)
+   {
+      Nodes.IntPoint(ptr).x = pts(i);
+      Nodes.IntPoint(ptr).weight = wts(i);
+      Nodes.IntPoint(ptr + 1).x = 1.0 - pts(i);
+      Nodes.IntPoint(ptr + 1).weight = wts(i);
+      ptr += 2;
    }
 
    // Populate the Q[0] matrix
-- 
2.43.0


From d5bed7db0fa6673dc6ca09df6fa01f68e66faf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:08 +0000
Subject: [PATCH 21/46] fix: StateIntegrator: size the shape vector before the
 element fills it

---
 src/physics/mfem_common_integ.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/physics/mfem_common_integ.cpp b/src/physics/mfem_common_integ.cpp
index 77259cd..e83d6df 100644
--- a/src/physics/mfem_common_integ.cpp
+++ b/src/physics/mfem_common_integ.cpp
@@ -299,6 +299,11 @@ double StateIntegrator::GetElementEnergy(const mfem::FiniteElement &el,
                                          mfem::ElementTransformation &trans,
                                          const mfem::Vector &elfun)
 {
+#ifdef MFEM_THREAD_SAFE
+   mfem::Vector shape;
+#endif
+   shape.SetSize(el.GetDof());
+
    const auto *ir =
        &IntRules.Get(el.GetGeomType(), 2 * el.GetOrder() + trans.OrderW());
 
@@ -318,6 +323,11 @@ void StateIntegrator::AssembleElementVector(const mfem::FiniteElement &el,
                                             const mfem::Vector &elfun,
                                             mfem::Vector &elfun_bar)
 {
+#ifdef MFEM_THREAD_SAFE
+   mfem::Vector shape;
+#endif
+   shape.SetSize(el.GetDof());
+
    const auto *ir =
        &IntRules.Get(el.GetGeomType(), 2 * el.GetOrder() + trans.OrderW());
 
-- 
2.43.0


From 602cef4b154643e7b2a27ad69f2c4aac2fb489fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:08 +0000
Subject: [PATCH 22/46] fix: VolumeIntegratorMeshSens: keep the sensitivity of
 the volume when no density is set

---
 src/physics/mfem_common_integ.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/physics/mfem_common_integ.cpp b/src/physics/mfem_common_integ.cpp
index e83d6df..99d9d97 100644
--- a/src/physics/mfem_common_integ.cpp
+++ b/src/physics/mfem_common_integ.cpp
@@ -225,19 +225,16 @@ void VolumeIntegratorMeshSens::AssembleRHSElementVect(
 
       double w_bar = 0.0;
       PointMat_bar = 0.0;
-      if (rho != nullptr)
+      if (rho != nullptr && *rho != nullptr)
       {
-         if (*rho != nullptr)
-         {
-            double s = (*rho)->Eval(trans, ip);
+         double s = (*rho)->Eval(trans, ip);
 
-            /// val = w * s;
-            double s_bar = val_bar * w;
-            w_bar += val_bar * s;
+         /// val = w * s;
+         double s_bar = val_bar * w;
+         w_bar += val_bar * s;
 
-            /// double s = rho->Eval(trans, ip);
-            (*rho)->EvalRevDiff(s_bar, trans, ip, PointMat_bar);
-         }
+         /// double s = rho->Eval(trans, ip);
+         (*rho)->EvalRevDiff(s_bar, trans, ip, PointMat_bar);
       }
       else
       {
-- 
2.43.0


From ec70055bb633aae0d174e163aee4bb5dbb281822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:32 +0000
Subject: [PATCH 23/46] fix: VectorFEMassIntegratorMeshSens: scale the weight
 sensitivity by alpha

---
 src/physics/mfem_common_integ.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/physics/mfem_common_integ.cpp b/src/physics/mfem_common_integ.cpp
index 99d9d97..2a09e94 100644
--- a/src/physics/mfem_common_integ.cpp
+++ b/src/physics/mfem_common_integ.cpp
@@ -2852,7 +2852,8 @@ void VectorFEMassIntegratorMeshSens::AssembleRHSElementVect(
       MultAtB(vshape, vshapedxt_bar, adj_jac_bar);
 
       /// double w = alpha * ip.weight / trans.Weight();
-      double trans_weight_bar = -w_bar * ip.weight / pow(trans.Weight(), 2);
+      double trans_weight_bar =
+          -w_bar * alpha * ip.weight / pow(trans.Weight(), 2);
 
       PointMat_bar = 0.0;
       isotrans.WeightRevDiff(PointMat_bar);
-- 
2.43.0


From 0a303cadb3fc2b38cb7732fb9ffd32e230d4f787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:32 +0000
Subject: [PATCH 24/46] fix: VectorFEDomainLFCurlIntegratorMeshSens: the curl
 has one component in 2D

---
 src/physics/mfem_common_integ.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/physics/mfem_common_integ.cpp b/src/physics/mfem_common_integ.cpp
index 2a09e94..dd8fb0e 100644
--- a/src/physics/mfem_common_integ.cpp
+++ b/src/physics/mfem_common_integ.cpp
@@ -3034,18 +3034,18 @@ void VectorFEDomainLFCurlIntegratorMeshSens::AssembleRHSElementVect(
    auto &F = integ.F;
    const auto &alpha = integ.alpha;
 
-   /// these vector's size is the spatial dimension we can stack allocate
+   /// these vector's size is the curl dimension we can stack allocate
    double vec_buffer[3];
-   Vector vec(vec_buffer, dim);
+   Vector vec(vec_buffer, dimc);
 
    double vec_bar_buffer[3];
-   Vector vec_bar(vec_bar_buffer, dim);
+   Vector vec_bar(vec_bar_buffer, dimc);
 
    double CT_psi_buffer[3];
-   Vector CT_psi(CT_psi_buffer, dim);
+   Vector CT_psi(CT_psi_buffer, dimc);
 
    double CT_psi_bar_buffer[3];
-   Vector CT_psi_bar(CT_psi_bar_buffer, dim);
+   Vector CT_psi_bar(CT_psi_bar_buffer, dimc);
 
    // cast the ElementTransformation
    auto &isotrans = dynamic_cast<IsoparametricTransformation &>(trans);
-- 
2.43.0


From e1572b73cac65192e1d8e0d8de4e53f075d79a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:32 +0000
Subject: [PATCH 25/46] fix: DomainLFIntegratorMeshRevSens: use the quadrature
 rule of the primal integrator

---
 src/physics/mfem_common_integ.cpp | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/physics/mfem_common_integ.cpp b/src/physics/mfem_common_integ.cpp
index dd8fb0e..4f9e18c 100644
--- a/src/physics/mfem_common_integ.cpp
+++ b/src/physics/mfem_common_integ.cpp
@@ -3163,27 +3163,9 @@ void DomainLFIntegratorMeshRevSens::AssembleRHSElementVect(
    const IntegrationRule *ir = IntRule;
    if (ir == nullptr)
    {
-      int order = [&]()
-      {
-         if (el.Space() == FunctionSpace::Pk)
-         {
-            return 2 * el.GetOrder() - 2;
-         }
-         else
-         {
-            // order = 2*el.GetOrder() - 2;  // <-- this seems to work fine too
-            return 2 * el.GetOrder() + el.GetDim() - 1;
-         }
-      }();
-
-      if (el.Space() == FunctionSpace::rQk)
-      {
-         ir = &RefinedIntRules.Get(el.GetGeomType(), order);
-      }
-      else
-      {
-         ir = &IntRules.Get(el.GetGeomType(), order);
-      }
+      /// the order the primal integrator, DomainLFIntegrator(Q, 2, -2), uses
+      int order = 2 * el.GetOrder() - 2;
+      ir = &IntRules.Get(el.GetGeomType(), order);
    }
 
    auto &alpha = integ.alpha;
-- 
2.43.0


From bee20c4c7788f4b1c946e5523b9a1aad9d65e620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:35 +0000
Subject: [PATCH 26/46] fix: contact resistance h sensitivity uses the
 residual's quadrature order

---
 src/physics/thermal/thermal_integ.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/thermal/thermal_integ.cpp b/src/physics/thermal/thermal_integ.cpp
index 04c0f4e..5a9a3b5 100644
--- a/src/physics/thermal/thermal_integ.cpp
+++ b/src/physics/thermal/thermal_integ.cpp
@@ -748,7 +748,7 @@ double ThermalContactResistanceIntegratorHRevSens::GetFaceEnergy(
    const auto *ir = IntRule;
    if (ir == NULL)
    {
-      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder()) + trans.OrderW();
+      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder());
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
-- 
2.43.0


From 53311b4d1261bc3de00c2f2dc0d61f5a2ee095db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:35 +0000
Subject: [PATCH 27/46] fix: internal convection Jacobian and mesh sensitivity
 use the residual's quadrature order

---
 src/physics/thermal/thermal_integ.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/thermal/thermal_integ.cpp b/src/physics/thermal/thermal_integ.cpp
index 5a9a3b5..8b1c7e7 100644
--- a/src/physics/thermal/thermal_integ.cpp
+++ b/src/physics/thermal/thermal_integ.cpp
@@ -916,7 +916,7 @@ void InternalConvectionInterfaceIntegrator::AssembleFaceGrad(
    const auto *ir = IntRule;
    if (ir == nullptr)
    {
-      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder());
+      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder()) + trans.OrderW();
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
@@ -1053,7 +1053,7 @@ void InternalConvectionInterfaceIntegratorMeshRevSens::AssembleRHSElementVect(
    const auto *ir = IntRule;
    if (ir == NULL)
    {
-      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder());
+      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder()) + trans.OrderW();
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
-- 
2.43.0


From 82b7b64cee84f6f74c406c0674c5f1427f04ae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:08 +0000
Subject: [PATCH 28/46] fix: curl-curl mesh sensitivity scales with the
 integrator's alpha

---
 src/physics/electromagnetics/electromag_integ.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index e9988ca..7dd5fb9 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -3530,7 +3530,7 @@ void CurlCurlNLFIntegratorMeshRevSens::AssembleRHSElementVect(
       const IntegrationPoint &ip = ir->IntPoint(i);
       isotrans.SetIntPoint(&ip);
 
-      const double w = ip.weight / trans.Weight();
+      const double w = integ.alpha * ip.weight / trans.Weight();
 
       if (dim == 3)
       {
@@ -3600,8 +3600,9 @@ void CurlCurlNLFIntegratorMeshRevSens::AssembleRHSElementVect(
       jac_bar = 0.0;
       AddMult(curlshape_dFt_bar, curlshape, jac_bar);
 
-      /// const double w = ip.weight / trans.Weight();
-      trans_weight_bar -= w_bar * ip.weight / pow(trans.Weight(), 2);
+      /// const double w = integ.alpha * ip.weight / trans.Weight();
+      trans_weight_bar -=
+          w_bar * integ.alpha * ip.weight / pow(trans.Weight(), 2);
 
       PointMat_bar = 0.0;
       isotrans.WeightRevDiff(PointMat_bar);
-- 
2.43.0


From 666908f0cfb31f894eb806741a21303252a36f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:08 +0000
Subject: [PATCH 29/46] fix: curl-curl mesh sensitivity is finite where the
 field vanishes

---
 src/physics/electromagnetics/electromag_integ.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index 7dd5fb9..aa57037 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -3579,7 +3579,10 @@ void CurlCurlNLFIntegratorMeshRevSens::AssembleRHSElementVect(
       double b_vec_bar_buffer[3] = {};
       Vector b_vec_bar(b_vec_bar_buffer, dim);
       b_vec_bar = 0.0;
-      add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      if (abs(b_vec_norm) > 1e-14)
+      {
+         add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      }
 
       /// const double curl_psi_dot_b = curl_psi * b_vec;
       double curl_psi_bar_buffer[3] = {};
-- 
2.43.0


From 8f0b608f8e0bddb50d770a3747cc62047e45d886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:08 +0000
Subject: [PATCH 30/46] fix: DG boundary diffusion Jacobian evaluates the model
 at the element point

---
 src/physics/electromagnetics/electromag_integ.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index aa57037..78bb3db 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -628,7 +628,7 @@ void NonlinearDGDiffusionIntegrator::AssembleFaceGrad(
 
       double model_val = model.Eval(*trans.Elem1, eip1, pointflux_norm);
       double model_deriv =
-          model.EvalStateDeriv(*trans.Elem1, ip, pointflux_norm);
+          model.EvalStateDeriv(*trans.Elem1, eip1, pointflux_norm);
       pointflux_norm_dot *= model_deriv;
 
       dshapedxt.Mult(nor, dshapedn);
-- 
2.43.0


From 41f73968071d8611e2e3e15a996f6990816acb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:08 +0000
Subject: [PATCH 31/46] fix: DG boundary diffusion mesh sensitivity evaluates
 the model at the element point

---
 src/physics/electromagnetics/electromag_integ.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index 78bb3db..ad7ecb9 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -858,7 +858,7 @@ void NonlinearDGDiffusionIntegratorMeshRevSens::AssembleRHSElementVect(
 
       /// double model_val = model.Eval(trans, eip1, ip_flux_norm);
       const double model_val_dot =
-          model.EvalStateDeriv(*trans.Elem1, ip, ip_flux_norm);
+          model.EvalStateDeriv(*trans.Elem1, eip1, ip_flux_norm);
       double ip_flux_norm_bar = model_val_bar * model_val_dot;
 
       /// const double ip_flux_norm = ip_flux.Norml2();
-- 
2.43.0


From f95857cf619bf8fcaeb5f0caaeba9b22e7661eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:08 +0000
Subject: [PATCH 32/46] fix: DG boundary diffusion mesh sensitivity is finite
 where the flux vanishes

---
 src/physics/electromagnetics/electromag_integ.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index ad7ecb9..d9132e7 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -863,7 +863,10 @@ void NonlinearDGDiffusionIntegratorMeshRevSens::AssembleRHSElementVect(
 
       /// const double ip_flux_norm = ip_flux.Norml2();
       ip_flux_bar = 0.0;
-      ip_flux_bar.Add(ip_flux_norm_bar / ip_flux_norm, ip_flux);
+      if (abs(ip_flux_norm) > 1e-14)
+      {
+         ip_flux_bar.Add(ip_flux_norm_bar / ip_flux_norm, ip_flux);
+      }
 
       /// dshapedxt.MultTranspose(elfun, ip_flux);
       AddMultVWt(elfun, ip_flux_bar, dshapedxt_bar);
-- 
2.43.0


From 3c94cdf3283d483218458215882ac0a962d942cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:08 +0000
Subject: [PATCH 33/46] fix: DG boundary diffusion mesh sensitivity uses the
 residual's quadrature order

---
 src/physics/electromagnetics/electromag_integ.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index d9132e7..3fced11 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -746,7 +746,17 @@ void NonlinearDGDiffusionIntegratorMeshRevSens::AssembleRHSElementVect(
    const mfem::IntegrationRule *ir = IntRule;
    if (ir == nullptr)
    {
-      int order = 2 * el.GetOrder();
+      int order = [&]()
+      {
+         if (el.Space() == FunctionSpace::Pk)
+         {
+            return 2 * el.GetOrder();
+         }
+         else
+         {
+            return 2 * el.GetOrder() + el.GetDim();
+         }
+      }();
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
-- 
2.43.0


From f9c3bc9fd059fe15340bbdb284d385eb957b4442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:08 +0000
Subject: [PATCH 34/46] fix: DG interior face diffusion Jacobian evaluates the
 model at the element points

---
 src/physics/electromagnetics/electromag_integ.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index 3fced11..21839ee 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -1177,12 +1177,12 @@ void DGInteriorFaceDiffusionIntegrator::AssembleFaceGrad(
 
       const double model_val1 = model.Eval(*trans.Elem1, eip1, ip_flux1_norm);
       double model_deriv1 =
-          model.EvalStateDeriv(*trans.Elem1, ip, ip_flux1_norm);
+          model.EvalStateDeriv(*trans.Elem1, eip1, ip_flux1_norm);
       ip_flux1_norm_dot *= model_deriv1;
 
       const double model_val2 = model.Eval(*trans.Elem2, eip2, ip_flux2_norm);
       double model_deriv2 =
-          model.EvalStateDeriv(*trans.Elem2, ip, ip_flux2_norm);
+          model.EvalStateDeriv(*trans.Elem2, eip2, ip_flux2_norm);
       ip_flux2_norm_dot *= model_deriv2;
 
       elmat11 = 0.0;
-- 
2.43.0


From 198a68b931f82fb26101505bf9dd2377b6f6354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:25 +0000
Subject: [PATCH 35/46] fix: diffusion mesh sensitivity uses the residual's
 quadrature on refined spaces

---
 src/physics/electromagnetics/electromag_integ.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index 21839ee..0cc717b 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -349,7 +349,14 @@ void NonlinearDiffusionIntegratorMeshRevSens::AssembleRHSElementVect(
          }
       }();
 
-      ir = &IntRules.Get(el.GetGeomType(), order);
+      if (el.Space() == FunctionSpace::rQk)
+      {
+         ir = &RefinedIntRules.Get(el.GetGeomType(), order);
+      }
+      else
+      {
+         ir = &IntRules.Get(el.GetGeomType(), order);
+      }
    }
 
    auto &alpha = integ.alpha;
-- 
2.43.0


From 5ee369869fc22b6bb04d30a7173f863a81a6fbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:42 +0000
Subject: [PATCH 36/46] fix: magnetic energy derivatives are finite where the
 field vanishes

---
 src/physics/electromagnetics/electromag_integ.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index 0cc717b..65ae741 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -4505,7 +4505,10 @@ void MagneticEnergyIntegrator::AssembleElementVector(
 
       b_vec_bar = 0.0;
       /// const double b_vec_norm = b_vec.Norml2();
-      add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      if (abs(b_vec_norm) > 1e-14)
+      {
+         add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      }
 
       /// curlshape_dFt.AddMultTranspose(elfun, b_vec);
       curlshape_dFt.AddMult(b_vec_bar, elfun_bar);
@@ -4634,7 +4637,10 @@ void MagneticEnergyIntegratorMeshSens::AssembleRHSElementVect(
 
       b_vec_bar = 0.0;
       /// const double b_vec_norm = b_vec.Norml2();
-      add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      if (abs(b_vec_norm) > 1e-14)
+      {
+         add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      }
 
       PointMat_bar = 0.0;
       if (dim == 3)
-- 
2.43.0


From 7d02431d326f65a63cce46344a545eb26bed9a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:34 +0000
Subject: [PATCH 37/46] fix: virtual-work force and its derivatives are finite
 where the field vanishes

---
 src/physics/electromagnetics/electromag_integ.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index 65ae741..5ae17b6 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -9811,6 +9811,11 @@ double ForceIntegrator3::GetElementEnergy(const FiniteElement &el,
       // b_vec = 0.0;
       curlshape_dFt.MultTranspose(elfun, b_vec);
       const double b_vec_norm = b_vec.Norml2();
+      /// the energy is quadratic in the flux density about zero: no force there
+      if (abs(b_vec_norm) < 1e-14)
+      {
+         continue;
+      }
       const double b_mag = b_vec_norm / trans_weight;
 
       /// compute d(b_mag)/dJ
@@ -9973,6 +9978,11 @@ void ForceIntegrator3::AssembleElementVector(const FiniteElement &el,
       b_vec = 0.0;
       curlshape_dFt.AddMultTranspose(elfun, b_vec);
       const double b_vec_norm = b_vec.Norml2();
+      /// the energy is quadratic in the flux density about zero: no force there
+      if (abs(b_vec_norm) < 1e-14)
+      {
+         continue;
+      }
       const double b_mag = b_vec_norm / trans_weight;
 
       /// compute d(b_mag)/dJ
@@ -10311,6 +10321,11 @@ void ForceIntegratorMeshSens3::AssembleRHSElementVect(
       b_vec = 0.0;
       curlshape_dFt.AddMultTranspose(elfun, b_vec);
       const double b_vec_norm = b_vec.Norml2();
+      /// the energy is quadratic in the flux density about zero: no force there
+      if (abs(b_vec_norm) < 1e-14)
+      {
+         continue;
+      }
       const double b_mag = b_vec_norm / trans_weight;
 
       /// compute d(b_mag)/dJ
-- 
2.43.0


From 4ccf9ed7eb98132f62e3cdea1db8941368d5fc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:34 +0000
Subject: [PATCH 38/46] fix: demagnetisation constraint is negated once, not at
 every quadrature point

---
 src/physics/electromagnetics/electromag_integ.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index 5ae17b6..b8615d3 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -13120,12 +13120,11 @@ double PMDemagIntegrator::GetElementEnergy(const mfem::FiniteElement &el,
       // ", C(B,T)=" << constraint_val << "\n"; Add the contribution to the
       // overall Permanent Magnet Demagnetization constraint equation value
       fun += constraint_val * w;
-
-      /// TODO: Negating PMDM constraint for IE constraint agg purposes (so
-      /// becomes a max rather than a min). Decide if want to move this logic
-      /// to the coefficient level
-      fun *= -1;
    }
+   /// TODO: Negating PMDM constraint for IE constraint agg purposes (so
+   /// becomes a max rather than a min). Decide if want to move this logic
+   /// to the coefficient level
+   fun *= -1;
    return fun;
 }
 
-- 
2.43.0


From db740f1ab7f1ac5bbfbb90ec630c1de30e8ad6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:55 +0000
Subject: [PATCH 39/46] fix: build the material model of a component named by a
 single attribute

The CAL2, demagnetisation-constraint and demagnetisation-flux coefficients
passed the component itself where the name of a material is expected, so a
component with "attr" threw a json type error instead of getting its model.
---
 src/physics/electromagnetics/cal2_ke_coefficient.cpp       | 4 ++--
 src/physics/electromagnetics/cal2_kh_coefficient.cpp       | 4 ++--
 src/physics/electromagnetics/demag_flux_coefficient.cpp    | 4 ++--
 src/physics/electromagnetics/pm_demag_constraint_coeff.cpp | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/physics/electromagnetics/cal2_ke_coefficient.cpp b/src/physics/electromagnetics/cal2_ke_coefficient.cpp
index a7d7070..75db13f 100644
--- a/src/physics/electromagnetics/cal2_ke_coefficient.cpp
+++ b/src/physics/electromagnetics/cal2_ke_coefficient.cpp
@@ -491,7 +491,7 @@ CAL2keCoefficient::CAL2keCoefficient(const nlohmann::json &CAL2_ke_options,
          if (-1 != attr)
          {
             CAL2_ke.addCoefficient(
-                attr, constructDefaultCAL2_keCoeff(component, materials));
+                attr, constructCAL2_keCoeff(component, materials));
          }
          else
          {
@@ -514,7 +514,7 @@ CAL2keCoefficient::CAL2keCoefficient(const nlohmann::json &CAL2_ke_options,
          if (-1 != attr)
          {
             CAL2_ke.addCoefficient(
-                attr, constructDefaultCAL2_keCoeff(component, materials));
+                attr, constructCAL2_keCoeff(component, materials));
          }
          else
          {
diff --git a/src/physics/electromagnetics/cal2_kh_coefficient.cpp b/src/physics/electromagnetics/cal2_kh_coefficient.cpp
index 029cf72..aba0ae7 100644
--- a/src/physics/electromagnetics/cal2_kh_coefficient.cpp
+++ b/src/physics/electromagnetics/cal2_kh_coefficient.cpp
@@ -491,7 +491,7 @@ CAL2khCoefficient::CAL2khCoefficient(const nlohmann::json &CAL2_kh_options,
          if (-1 != attr)
          {
             CAL2_kh.addCoefficient(
-                attr, constructDefaultCAL2_khCoeff(component, materials));
+                attr, constructCAL2_khCoeff(component, materials));
          }
          else
          {
@@ -514,7 +514,7 @@ CAL2khCoefficient::CAL2khCoefficient(const nlohmann::json &CAL2_kh_options,
          if (-1 != attr)
          {
             CAL2_kh.addCoefficient(
-                attr, constructDefaultCAL2_khCoeff(component, materials));
+                attr, constructCAL2_khCoeff(component, materials));
          }
          else
          {
diff --git a/src/physics/electromagnetics/demag_flux_coefficient.cpp b/src/physics/electromagnetics/demag_flux_coefficient.cpp
index 6e88fff..51edacd 100644
--- a/src/physics/electromagnetics/demag_flux_coefficient.cpp
+++ b/src/physics/electromagnetics/demag_flux_coefficient.cpp
@@ -228,7 +228,7 @@ DemagFluxCoefficient::DemagFluxCoefficient(const nlohmann::json &B_knee_options,
          if (-1 != attr)
          {
             B_knee.addCoefficient(
-                attr, constructDefaultDemagFluxCoeff(component, materials));
+                attr, constructDemagFluxCoeff(component, materials));
          }
          else
          {
@@ -251,7 +251,7 @@ DemagFluxCoefficient::DemagFluxCoefficient(const nlohmann::json &B_knee_options,
          if (-1 != attr)
          {
             B_knee.addCoefficient(
-                attr, constructDefaultDemagFluxCoeff(component, materials));
+                attr, constructDemagFluxCoeff(component, materials));
          }
          else
          {
diff --git a/src/physics/electromagnetics/pm_demag_constraint_coeff.cpp b/src/physics/electromagnetics/pm_demag_constraint_coeff.cpp
index d5006d4..c75f328 100644
--- a/src/physics/electromagnetics/pm_demag_constraint_coeff.cpp
+++ b/src/physics/electromagnetics/pm_demag_constraint_coeff.cpp
@@ -467,7 +467,7 @@ PMDemagConstraintCoefficient::PMDemagConstraintCoefficient(
          {
             PMDemagConstraint.addCoefficient(
                 attr,
-                constructDefaultPMDemagConstraintCoeff(component, materials));
+                constructPMDemagConstraintCoeff(component, materials));
          }
          else
          {
@@ -492,7 +492,7 @@ PMDemagConstraintCoefficient::PMDemagConstraintCoefficient(
          {
             PMDemagConstraint.addCoefficient(
                 attr,
-                constructDefaultPMDemagConstraintCoeff(component, materials));
+                constructPMDemagConstraintCoeff(component, materials));
          }
          else
          {
-- 
2.43.0


From 39998540d186d431ed00737544b574c5d9a00df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:55 +0000
Subject: [PATCH 40/46] fix: derivatives of the CAL2 coefficients at zero flux
 density

The derivative sums included the terms of degree 0 (and 1), 0 * pow(0, -1),
which is NaN where the flux density vanishes.
---
 .../electromagnetics/cal2_ke_coefficient.cpp     | 16 ++++++++--------
 .../electromagnetics/cal2_kh_coefficient.cpp     | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/physics/electromagnetics/cal2_ke_coefficient.cpp b/src/physics/electromagnetics/cal2_ke_coefficient.cpp
index 75db13f..b6adb48 100644
--- a/src/physics/electromagnetics/cal2_ke_coefficient.cpp
+++ b/src/physics/electromagnetics/cal2_ke_coefficient.cpp
@@ -639,14 +639,14 @@ double PolyVarEddyCurrentLossCoeff::EvalDerivS3(
 
    // double ke_T0_f_B = 0.0;
    double dke_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T0.size()); ++i)
    {
       // ke_T0_f_B += ke_T0[i]*std::pow(B_m,i);
       dke_T0_f_BdB_m += i * ke_T0[i] * std::pow(B_m, i - 1);
    }
    // double ke_T1_f_B = 0.0;
    double dke_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T1.size()); ++i)
    {
       // ke_T1_f_B += ke_T1[i]*std::pow(B_m,i);
       dke_T1_f_BdB_m += i * ke_T1[i] * std::pow(B_m, i - 1);
@@ -718,14 +718,14 @@ double PolyVarEddyCurrentLossCoeff::Eval2ndDerivS3(
 
    // double dke_T0_f_BdB_m = 0.0;
    double d2ke_T0_f_BdB_m2 = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T0.size()); ++i)
+   for (int i = 2; i < static_cast<int>(ke_T0.size()); ++i)
    {
       // dke_T0_f_BdB_m += i*ke_T0[i]*std::pow(B_m,i-1);
       d2ke_T0_f_BdB_m2 += (i - 1) * i * ke_T0[i] * std::pow(B_m, i - 2);
    }
    double dke_T1_f_BdB_m = 0.0;
    double d2ke_T1_f_BdB_m2 = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T1.size()); ++i)
+   for (int i = 2; i < static_cast<int>(ke_T1.size()); ++i)
    {
       // dke_T1_f_BdB_m += i*ke_T1[i]*std::pow(B_m,i-1);
       d2ke_T1_f_BdB_m2 += (i - 1) * i * ke_T1[i] * std::pow(B_m, i - 2);
@@ -776,14 +776,14 @@ double PolyVarEddyCurrentLossCoeff::Eval2ndDerivS1S3(
 
    // double ke_T0_f_B = 0.0;
    double dke_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T0.size()); ++i)
    {
       // ke_T0_f_B += ke_T0[i]*std::pow(B_m,i);
       dke_T0_f_BdB_m += i * ke_T0[i] * std::pow(B_m, i - 1);
    }
    // double ke_T1_f_B = 0.0;
    double dke_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T1.size()); ++i)
    {
       // ke_T1_f_B += ke_T1[i]*std::pow(B_m,i);
       dke_T1_f_BdB_m += i * ke_T1[i] * std::pow(B_m, i - 1);
@@ -855,14 +855,14 @@ double PolyVarEddyCurrentLossCoeff::Eval2ndDerivS3S1(
 
    // double ke_T0_f_B = 0.0;
    double dke_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T0.size()); ++i)
    {
       // ke_T0_f_B += ke_T0[i]*std::pow(B_m,i);
       dke_T0_f_BdB_m += i * ke_T0[i] * std::pow(B_m, i - 1);
    }
    // double ke_T1_f_B = 0.0;
    double dke_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T1.size()); ++i)
    {
       // ke_T1_f_B += ke_T1[i]*std::pow(B_m,i);
       dke_T1_f_BdB_m += i * ke_T1[i] * std::pow(B_m, i - 1);
diff --git a/src/physics/electromagnetics/cal2_kh_coefficient.cpp b/src/physics/electromagnetics/cal2_kh_coefficient.cpp
index aba0ae7..242dfe1 100644
--- a/src/physics/electromagnetics/cal2_kh_coefficient.cpp
+++ b/src/physics/electromagnetics/cal2_kh_coefficient.cpp
@@ -639,14 +639,14 @@ double PolyVarHysteresisLossCoeff::EvalDerivS3(
 
    // double kh_T0_f_B = 0.0;
    double dkh_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T0.size()); ++i)
    {
       // kh_T0_f_B += kh_T0[i]*std::pow(B_m,i);
       dkh_T0_f_BdB_m += i * kh_T0[i] * std::pow(B_m, i - 1);
    }
    // double kh_T1_f_B = 0.0;
    double dkh_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T1.size()); ++i)
    {
       // kh_T1_f_B += kh_T1[i]*std::pow(B_m,i);
       dkh_T1_f_BdB_m += i * kh_T1[i] * std::pow(B_m, i - 1);
@@ -718,14 +718,14 @@ double PolyVarHysteresisLossCoeff::Eval2ndDerivS3(
 
    // double dkh_T0_f_BdB_m = 0.0;
    double d2kh_T0_f_BdB_m2 = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T0.size()); ++i)
+   for (int i = 2; i < static_cast<int>(kh_T0.size()); ++i)
    {
       // dkh_T0_f_BdB_m += i*kh_T0[i]*std::pow(B_m,i-1);
       d2kh_T0_f_BdB_m2 += (i - 1) * i * kh_T0[i] * std::pow(B_m, i - 2);
    }
    // double dkh_T1_f_BdB_m = 0.0;
    double d2kh_T1_f_BdB_m2 = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T1.size()); ++i)
+   for (int i = 2; i < static_cast<int>(kh_T1.size()); ++i)
    {
       // dkh_T1_f_BdB_m += i*kh_T1[i]*std::pow(B_m,i-1);
       d2kh_T1_f_BdB_m2 += (i - 1) * i * kh_T1[i] * std::pow(B_m, i - 2);
@@ -776,14 +776,14 @@ double PolyVarHysteresisLossCoeff::Eval2ndDerivS1S3(
 
    // double kh_T0_f_B = 0.0;
    double dkh_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T0.size()); ++i)
    {
       // kh_T0_f_B += kh_T0[i]*std::pow(B_m,i);
       dkh_T0_f_BdB_m += i * kh_T0[i] * std::pow(B_m, i - 1);
    }
    // double kh_T1_f_B = 0.0;
    double dkh_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T1.size()); ++i)
    {
       // kh_T1_f_B += kh_T1[i]*std::pow(B_m,i);
       dkh_T1_f_BdB_m += i * kh_T1[i] * std::pow(B_m, i - 1);
@@ -855,14 +855,14 @@ double PolyVarHysteresisLossCoeff::Eval2ndDerivS3S1(
 
    // double kh_T0_f_B = 0.0;
    double dkh_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T0.size()); ++i)
    {
       // kh_T0_f_B += kh_T0[i]*std::pow(B_m,i);
       dkh_T0_f_BdB_m += i * kh_T0[i] * std::pow(B_m, i - 1);
    }
    // double kh_T1_f_B = 0.0;
    double dkh_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T1.size()); ++i)
    {
       // kh_T1_f_B += kh_T1[i]*std::pow(B_m,i);
       dkh_T1_f_BdB_m += i * kh_T1[i] * std::pow(B_m, i - 1);
-- 
2.43.0


From 9379bc33200b86cbc1450116d8c44b0343210b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:32 +0000
Subject: [PATCH 41/46] fix: derivatives of the B-H reluctivity at zero flux
 and of second order

EvalStateDeriv was 0/0 at zero flux density, where Eval takes the limit, and
EvalState2ndDeriv was not implemented, so the base class returned zero for a
model whose second derivative the magnetic energy uses.
---
 .../reluctivity_coefficient.cpp               | 56 ++++++++++++++++++-
 1 file changed, 54 insertions(+), 2 deletions(-)

diff --git a/src/physics/electromagnetics/reluctivity_coefficient.cpp b/src/physics/electromagnetics/reluctivity_coefficient.cpp
index 5e9f908..50ffa46 100644
--- a/src/physics/electromagnetics/reluctivity_coefficient.cpp
+++ b/src/physics/electromagnetics/reluctivity_coefficient.cpp
@@ -99,6 +99,10 @@ public:
                          const mfem::IntegrationPoint &ip,
                          double state) override;
 
+   double EvalState2ndDeriv(mfem::ElementTransformation &trans,
+                            const mfem::IntegrationPoint &ip,
+                            double state) override;
+
    void EvalRevDiff(const double Q_bar,
                     mfem::ElementTransformation &trans,
                     const mfem::IntegrationPoint &ip,
@@ -117,6 +121,10 @@ protected:
    std::unique_ptr<tinyspline::BSpline> bh;
    /// spline representing dH(B)/dB
    std::unique_ptr<tinyspline::BSpline> dbdh;
+   /// spline representing d2H(B)/dB2
+   std::unique_ptr<tinyspline::BSpline> d2bdh2;
+   /// spline representing d3H(B)/dB3
+   std::unique_ptr<tinyspline::BSpline> d3bdh3;
 };
 
 class team13ReluctivityCoefficient : public miso::StateCoefficient
@@ -531,8 +539,17 @@ double BHBSplineReluctivityCoefficient::EvalStateDeriv(
 {
    constexpr double nu0 = 1 / (4e-7 * M_PI);
 
-   /// TODO: handle state == 0
-   if (state <= b_max)
+   if (state <= 1e-14)
+   {
+      if (d2bdh2 == nullptr)
+      {
+         d2bdh2 = std::make_unique<tinyspline::BSpline>(dbdh->derive());
+      }
+      /// limit of d(H/B)/dB as B goes to zero
+      double t = state / b_max;
+      return d2bdh2->eval(t).result()[0] / (2 * pow(b_max, 2));
+   }
+   else if (state <= b_max)
    {
       double t = state / b_max;
       double h = bh->eval(t).result()[0];
@@ -544,6 +561,41 @@ double BHBSplineReluctivityCoefficient::EvalStateDeriv(
    }
 }
 
+double BHBSplineReluctivityCoefficient::EvalState2ndDeriv(
+    mfem::ElementTransformation &trans,
+    const mfem::IntegrationPoint &ip,
+    const double state)
+{
+   constexpr double nu0 = 1 / (4e-7 * M_PI);
+
+   if (d2bdh2 == nullptr)
+   {
+      d2bdh2 = std::make_unique<tinyspline::BSpline>(dbdh->derive());
+   }
+   if (state <= 1e-14)
+   {
+      if (d3bdh3 == nullptr)
+      {
+         d3bdh3 = std::make_unique<tinyspline::BSpline>(d2bdh2->derive());
+      }
+      /// limit of d2(H/B)/dB2 as B goes to zero
+      double t = state / b_max;
+      return d3bdh3->eval(t).result()[0] / (3 * pow(b_max, 3));
+   }
+   else if (state <= b_max)
+   {
+      double t = state / b_max;
+      double h = bh->eval(t).result()[0];
+      double dh = dbdh->eval(t).result()[0] / b_max;
+      double d2h = d2bdh2->eval(t).result()[0] / pow(b_max, 2);
+      return d2h / state - 2 * dh / pow(state, 2) + 2 * h / pow(state, 3);
+   }
+   else
+   {
+      return 2 * (h_max - nu0 * b_max) / pow(state, 3);
+   }
+}
+
 // BHBSplineReluctivityCoefficient::~BHBSplineReluctivityCoefficient() =
 // default;
 
-- 
2.43.0


From 110c3b435ec026a8546eafff06fb43d845609d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:44 +0000
Subject: [PATCH 42/46] fix: SurfaceForce gradient ignored alpha in the
 gradient part

---
 src/physics/fluidflow/navier_stokes_integ_def.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/navier_stokes_integ_def.hpp b/src/physics/fluidflow/navier_stokes_integ_def.hpp
index 653eda2..1474216 100644
--- a/src/physics/fluidflow/navier_stokes_integ_def.hpp
+++ b/src/physics/fluidflow/navier_stokes_integ_def.hpp
@@ -1599,7 +1599,7 @@ void SurfaceForce<dim>::AssembleFaceVector(
       flux_mat *= face_ip.weight;
 
       // multiply flux_Dvi by the test-function derivative
-      flux_mat *= Hinv;
+      flux_mat *= alpha * Hinv;
       for (int j = 0; j < num_nodes; ++j)
       {
          // Get mapping Jacobian adjugate
-- 
2.43.0


From 7d9ed6e5a22caff2d5bb7e0e6a6cdf2444939406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:44 +0000
Subject: [PATCH 43/46] fix: BoundaryEntropy took the pressure of entropy
 variables

---
 src/physics/fluidflow/euler_integ_def.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/euler_integ_def.hpp b/src/physics/fluidflow/euler_integ_def.hpp
index 6a8f8f8..4047cc9 100644
--- a/src/physics/fluidflow/euler_integ_def.hpp
+++ b/src/physics/fluidflow/euler_integ_def.hpp
@@ -971,7 +971,9 @@ double BoundaryEntropy<dim, entvar>::calcBndryFun(const mfem::Vector &x,
 {
    // evaluate the entropy, then return the scaled value
    double S = entropy<double, dim, entvar>(q.GetData());
-   double press = pressure<double, dim>(q.GetData());
+   double q_con[dim + 2];
+   calcConservativeVars<double, dim, entvar>(q.GetData(), q_con);
+   double press = pressure<double, dim>(q_con);
    S += euler::rho_ref*(press - euler::press_ref)/euler::press_ref;
    double scale = control_scale(len_scale, x_actuator, x);
    double dA = sqrt(dot<double, dim>(dir.GetData(), dir.GetData()));
-- 
2.43.0


From c92b241684a0db0e5026b96aa086ae8a3296f136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:44 +0000
Subject: [PATCH 44/46] fix: calcInviscidMMS wrote past the source when no
 solution is available

---
 src/physics/fluidflow/euler_fluxes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/euler_fluxes.hpp b/src/physics/fluidflow/euler_fluxes.hpp
index 98aa691..8382571 100644
--- a/src/physics/fluidflow/euler_fluxes.hpp
+++ b/src/physics/fluidflow/euler_fluxes.hpp
@@ -1413,7 +1413,7 @@ void calcInviscidMMS(int dim, const xdouble *x, xdouble *src)
       }
       default:
       {  
-         src[0] = 0.0; src[1] = 0.0; src[2] = 0.0; src[3] = 0.0; src[4] = 0.0;
+         for (int i = 0; i < dim + 2; ++i) { src[i] = 0.0; }
          break;
       }
    }
-- 
2.43.0


From ecae49d4fed65ec3056c2ac122811db3e12e3c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:11 +0000
Subject: [PATCH 45/46] fix: stator current source functions referenced the
 constructor's local variables

The lambdas given to the VectorFunctionCoefficients capture n_slots and
stack_length by reference, but both were copies local to the constructor,
so every evaluation of a cwStator or ccwStator source read dead stack
memory (and setInputs could not change either). Bind references to the
entries of cached_inputs instead, which outlive the coefficients.
---
 src/physics/electromagnetics/current_source_functions.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/physics/electromagnetics/current_source_functions.cpp b/src/physics/electromagnetics/current_source_functions.cpp
index 596a771..6b1da0c 100644
--- a/src/physics/electromagnetics/current_source_functions.cpp
+++ b/src/physics/electromagnetics/current_source_functions.cpp
@@ -729,9 +729,9 @@ CurrentDensityCoefficient::CurrentDensityCoefficient(
          if (source == "cwStator")
          {
             cached_inputs.emplace("n_slots", 24.0);
-            auto n_slots = cached_inputs.at("n_slots");
+            auto &n_slots = cached_inputs.at("n_slots");
             cached_inputs.emplace("stack_length", 0.345);
-            auto stack_length = cached_inputs.at("stack_length");
+            auto &stack_length = cached_inputs.at("stack_length");
             for (const auto &attr : attrs)
             {
                source_coeffs.emplace(
@@ -764,9 +764,9 @@ CurrentDensityCoefficient::CurrentDensityCoefficient(
          else if (source == "ccwStator")
          {
             cached_inputs.emplace("n_slots", 24.0);
-            auto n_slots = cached_inputs.at("n_slots");
+            auto &n_slots = cached_inputs.at("n_slots");
             cached_inputs.emplace("stack_length", 0.345);
-            auto stack_length = cached_inputs.at("stack_length");
+            auto &stack_length = cached_inputs.at("stack_length");
             for (const auto &attr : attrs)
             {
                source_coeffs.emplace(
-- 
2.43.0


From b67b792f3592bceb452e79b90bc847c01b608830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:11 +0000
Subject: [PATCH 46/46] fix: restoring cached current densities threw for
 stator sources

cached_inputs also holds n_slots and stack_length for stator sources,
which are not current groups, so group_map.at() threw std::out_of_range.
---
 src/physics/electromagnetics/current_source_functions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/electromagnetics/current_source_functions.cpp b/src/physics/electromagnetics/current_source_functions.cpp
index 6b1da0c..368ab04 100644
--- a/src/physics/electromagnetics/current_source_functions.cpp
+++ b/src/physics/electromagnetics/current_source_functions.cpp
@@ -664,9 +664,9 @@ void CurrentDensityCoefficient::zeroCurrentDensity()
 
 void CurrentDensityCoefficient::resetCurrentDensityFromCache()
 {
-   for (auto &[group, value] : cached_inputs)
+   for (auto &[group, coeff] : group_map)
    {
-      group_map.at(group).constant = value;
+      coeff.constant = cached_inputs.at(group);
    }
 }
 
-- 
2.43.0

