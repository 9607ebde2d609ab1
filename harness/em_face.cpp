// VP-ODL
// VP-DEFS -Doverride=
// Electromagnetic residual integrators of electromag_integ.cpp on faces (interior
// penalty terms), their Jacobians and their sensitivities.
#include "std_model.hpp"
#include "mfem_iso_model.hpp"
#include <list>
#include "mfem_iso_priv.hpp"
#include "coefficient.hpp"
#include "electromag_integ.cpp"
#include "miso_input.cpp"
#include "iso_fixture.hpp"
#include "face_fixture.hpp"
#include "em_fixture.hpp"
static const char *DX = "the mesh sensitivity is the derivative of the adjoint-weighted residual in the node coordinates";
static const char *RQ = "the residual is the quadrature of its integrand";
static const char *DJ = "the Jacobian is the derivative of the residual in the state";
// scaled normal of the face at point q
static double vp_normal(const Face &f, int q, int a)
{
   if (f.D == 2) { return a == 0 ? f.J(q, 1, 0) : -f.J(q, 0, 0); }
   int b = (a + 1) % 3, c = (a + 2) % 3;
   return f.J(q, b, 0) * f.J(q, c, 1) - f.J(q, c, 0) * f.J(q, b, 1);
}
// mesh space of the element(s) next to a face: the nodes of the face are nodes of the first element
struct PlainSpace : VpSpace
{
   int pos[9];
   PlainSpace(const mfem::FiniteElement *m1, const mfem::FiniteElement *m2, int D) : VpSpace(m1, nullptr)
   {
      fe2 = m2;
      const int n = D * D;
      vd.SetSize(n); vd2.SetSize(m2 ? n : 0); vdface.SetSize(n);
      for (int i = 0; i < n; ++i) { vd[i] = 40 + (2 * i) % n + (D == 2 ? i / 2 : 0); if (m2) { vd2[i] = 60 + i; } }
      for (int d = 0; d < D; ++d) { for (int j = 0; j < D; ++j) { pos[d * D + j] = d * D + (j + 1) % D; vdface[d * D + j] = vd[pos[d * D + j]]; } }
   }
};
// fixture of a face of one (B) or two elements
template <int D, bool B, int N1, int N2 = N1> struct Fix
{
   Rule r; PlainEl m1, m2; Iso t1, t2; SideEl e1, e2; Face fc; PlainSpace sp;
   Fix(bool itf, int o1, int o2) : m1(D, "mN"), m2(D, "mM"), t1(m1, D, "X", 3), t2(m2, D, "Z", 5), e1(D, N1, o1, 1), e2(D, N2, o2, 2), fc(D, "Y", t1, B ? nullptr : &t2, !itf), sp(&m1, B ? nullptr : &m2, D)
   {
      vp_valid(t1);
      if (!B) { vp_valid(t2); }
      e1.arbitrary("N", "d"); e2.arbitrary("M", "e");
      // in 3D each basis function varies along two axes
      if (D == 3 && N1 == 1) { for (int q = 0; q < NQ; ++q) { e1.d[q][0][1] = 0.0; e2.d[q][0][2] = 0.0; e1.d[q][0][2] = 0.0; e2.d[q][0][1] = 0.0; } }
   }
   int q2(int q) const { return vp_other(q); }
   double nn(int q) const { double s = 0.0; for (int a = 0; a < D; ++a) { s += vp_normal(fc, q, a) * vp_normal(fc, q, a); } return s; }
   // normal derivative of basis function i
   double dn1(int q, int i) const { double s = 0.0; for (int a = 0; a < D; ++a) { s += vp_grad(e1, t1, q, i, a) * vp_normal(fc, q, a); } return s; }
   double dn2(int q, int i) const { double s = 0.0; for (int a = 0; a < D; ++a) { s += vp_grad(e2, t2, vp_other(q), i, a) * vp_normal(fc, q, a); } return s; }
   double norm1(int q, const Vector &u) const { double g[3]; for (int a = 0; a < D; ++a) { g[a] = 0.0; for (int j = 0; j < N1; ++j) { g[a] += u(j) * vp_grad(e1, t1, q, j, a); } } return sqrt(vp_norm2(g, D)); }
   double norm2(int q, const Vector &u) const { double g[3]; for (int a = 0; a < D; ++a) { g[a] = 0.0; for (int j = 0; j < N2; ++j) { g[a] += u(N1 + j) * vp_grad(e2, t2, vp_other(q), j, a); } } return sqrt(vp_norm2(g, D)); }
   template <class In> void jac(In &in, Vector &u)
   {
      const int n = u.Size();
      double J[16];
      vp_world.order = -1;
      jacobian([&](double *x, double *y) { Vector v(x, n), e; in.AssembleFaceVector(e1, B ? e1 : e2, fc, v, e); for (int i = 0; i < n; ++i) { y[i] = e(i); } }, u.GetData(), n, n, J);
      const int o = vp_world.order, g = vp_world.geom; vp_world.order = -1;
      DenseMatrix A;
      vp_twice(A, [&](auto &vp_o) { in.AssembleFaceGrad(e1, B ? e1 : e2, fc, u, vp_o); });
      vp_ieq("Jacobian and residual use the same quadrature order", vp_world.order, o);
      vp_ieq("Jacobian and residual use the same quadrature geometry", vp_world.geom, g);
      vp_true("the Jacobian has the size of the state", A.Height() == n && A.Width() == n);
      for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { vp_eq(DJ, A(i, j), J[i * n + j]); } }
   }
   // sensitivity to the nodes of both elements and of the face; part: the coordinates compared (all of them: -1)
   template <class E, class S> void mesh(E energy, S sens, int part = -1, int parts = 4)
   {
      double g[3][9], x[32];
      vp_world.order = -1;
      gradient([&](double *y) { t1.put(y); return energy(); }, t1.X, D * D, g[0]); t1.put(t1.X);
      if (!B) { gradient([&](double *y) { t2.put(y); return energy(); }, t2.X, D * D, g[1]); t2.put(t2.X); }
      { gradient([&](double *y) { fc.put(y); return energy(); }, fc.X, D * D, g[2]); fc.put(fc.X); }
      const int o = vp_world.order, ge = vp_world.geom; vp_world.order = -1;
      Vector m;
      vp_twice(m, sens);
      vp_ieq("sensitivity and residual use the same quadrature order", vp_world.order, o);
      vp_ieq("sensitivity and residual use the same quadrature geometry", vp_world.geom, ge);
      const int n = (B ? 1 : 2) * D * D;
      vp_ieq("one mesh sensitivity per node coordinate", m.Size(), n);
      for (int i = 0; i < D * D; ++i) { x[i] = g[0][i]; if (!B) { x[D * D + i] = g[1][i]; } }
      { for (int i = 0; i < D * D; ++i) { x[sp.pos[i]] += g[2][i]; } }
      for (int i = 0; i < n; ++i) { if (part < 0 || i % parts == part) { vp_eq(DX, m(i), x[i]); } }
   }
};
// symmetric interior penalty boundary condition u = g: with Q = nu(|grad u|),
// residual_i = sum_q alpha w_q Q (- u_n N_i - (u - g) N_i,n + mu |n|^2/det (u - g) N_i)
template <int D, int K> static void boundary()
{
   enum { N1 = D == 3 && K == 1 ? 1 : 2 };
   Fix<D, true, N1> f(false, 2, 2);
   Field u(&f.e1, "u"), p(&f.e1, "p");
   if (D == 3) { f.e1.refined(); }   // a space that is not that of a simplex
   double al = vp_real("alpha", 0, -2, 2), mu = vp_real("mu", 0, 0.5, 2);
   MCoef nu("nu"); nu.away = true;
   BCoef g("g");
   miso::NonlinearDGDiffusionIntegrator in(nu, g, mu, al);
   vp_reach("boundary");
   if (K == 0)
   {
      Vector e;
      vp_twice(e, [&](auto &vp_o) { in.AssembleFaceVector(f.e1, f.e1, f.fc, u.el, vp_o); });
      vp_ieq("one residual per degree of freedom", e.Size(), N1);
      vp_ieq("the quadrature is that of the face", vp_world.geom, f.fc.GetGeometryType());
      for (int i = 0; i < N1; ++i)
      {
         double v = 0.0;
         for (int q = 0; q < NQ; ++q)
         {
            double s = -g.at(3), un = 0.0;
            for (int j = 0; j < N1; ++j) { s += u.el(j) * f.e1.s[q][j]; un += u.el(j) * f.dn1(q, j); }
            v += al * f.r.w(q) * nu.at(f.t1, f.norm1(q, u.el)) * (-un * f.e1.s[q][i] - s * f.dn1(q, i) + mu * f.nn(q) / f.t1.det(q) * s * f.e1.s[q][i]);
         }
         vp_eq(RQ, e(i), v);
      }
      f.jac(in, u.el);
   }
   else
   {
      miso::NonlinearDGDiffusionIntegratorMeshRevSens ms(f.sp, u, p, in);
      f.mesh([&]() { Vector e; in.AssembleFaceVector(f.e1, f.e1, f.fc, u.el, e); return e * p.el; }, [&](Vector &m) { ms.AssembleRHSElementVect(f.m1, f.fc, m); });
   }
}
VP_HARNESS(h_boundary_2) { boundary<2, 0>(); }
VP_HARNESS(h_boundary_3) { boundary<3, 0>(); }
VP_HARNESS(h_boundary_mesh_2) { boundary<2, 1>(); }
VP_HARNESS(h_boundary_mesh_3) { boundary<3, 1>(); }
// symmetric interior penalty on a face: with Q_k = nu(|grad u_k|), {Q u_n} = (Q1 u1_n + Q2 u2_n)/2,
// residual_i of side k = sum_q alpha w_q (-+ {Q u_n} N_i - (u1 - u2) Q_k N_i,n/2 +- mu |n|^2/2 (Q1/det1 + Q2/det2)(u1 - u2) N_i)
template <int D, int K> static void interior(bool itf, int o1, int o2, int part = -1, int parts = 4)
{
   enum { N1 = D == 3 && K == 2 ? 1 : 2, N2 = N1 };
   Fix<D, false, N1> f(itf, o1, o2);
   Field2 u(&f.e1, &f.e2, "u"), p(&f.e1, &f.e2, "p");
   double al = vp_real("alpha", 0, -2, 2), mu = vp_real("mu", 0, 0.5, 2);
   MCoef nu("nu"); nu.away = true;
   miso::DGInteriorFaceDiffusionIntegrator in(nu, mu, al);
   vp_reach("interior");
   if (K == 0)
   {
      Vector e;
      vp_twice(e, [&](auto &vp_o) { in.AssembleFaceVector(f.e1, f.e2, f.fc, u.both, vp_o); });
      vp_ieq("one residual per degree of freedom", e.Size(), N1 + N2);
      vp_ieq("the quadrature is that of the face", vp_world.geom, f.fc.GetGeometryType());
      for (int i = 0; i < N1 + N2; ++i)
      {
         double v = 0.0;
         for (int q = 0; q < NQ; ++q)
         {
            double jump = u.at1(f.e1, q) - u.at2(f.e2, q), u1 = 0.0, u2 = 0.0;
            for (int j = 0; j < N1; ++j) { u1 += u.both(j) * f.dn1(q, j); }
            for (int j = 0; j < N2; ++j) { u2 += u.both(N1 + j) * f.dn2(q, j); }
            const double Q1 = nu.at(f.t1, f.norm1(q, u.both)), Q2 = nu.at(f.t2, f.norm2(q, u.both)), s = i < N1 ? 1 : -1;
            const double N = i < N1 ? f.e1.s[q][i] : f.e2.s[vp_other(q)][i - N1], dN = i < N1 ? Q1 * f.dn1(q, i) : Q2 * f.dn2(q, i - N1);
            v += al * f.r.w(q) * (-s * (Q1 * u1 + Q2 * u2) / 2 * N - jump * dN / 2 + s * mu * f.nn(q) / 2 * (Q1 / f.t1.det(q) + Q2 / f.t2.det(vp_other(q))) * jump * N);
         }
         vp_eq(RQ, e(i), v);
      }
   }
   else if (K == 1) { f.jac(in, u.both); }
   else
   {
      miso::DGInteriorFaceDiffusionIntegratorMeshRevSens ms(f.sp, u, p, in);
      f.mesh([&]() { Vector e; in.AssembleFaceVector(f.e1, f.e2, f.fc, u.both, e); return e * p.both; }, [&](Vector &m) { ms.AssembleRHSElementVect(f.m1, f.m2, f.fc, m); }, part, parts);
   }
}
VP_HARNESS(h_interior_2) { interior<2, 0>(true, 2, 3); }
VP_HARNESS(h_interior_3) { interior<3, 0>(true, 3, 2); }
VP_HARNESS(h_interior_jac_2) { interior<2, 1>(true, 2, 3); }
VP_HARNESS(h_interior_jac_3) { interior<3, 1>(true, 2, 3); }
VP_HARNESS(h_interior_mesh_2a) { interior<2, 2>(true, 2, 3, 0, 2); }
VP_HARNESS(h_interior_mesh_2b) { interior<2, 2>(true, 3, 2, 1, 2); }
VP_HARNESS(h_interior_mesh_3a) { interior<3, 2>(true, 2, 3, 0); }
VP_HARNESS(h_interior_mesh_3b) { interior<3, 2>(true, 2, 3, 1); }
VP_HARNESS(h_interior_mesh_3c) { interior<3, 2>(true, 2, 3, 2); }
VP_HARNESS(h_interior_mesh_3d) { interior<3, 2>(true, 2, 3, 3); }

// where the flux vanishes the sensitivities are those of a material of the value nu(0)
struct LinCoef : MCoef
{
   using MCoef::MCoef;
   using MCoef::Eval;
   double Eval(mfem::ElementTransformation &T, const IntegrationPoint &ip, double) override { return arg(T, ip, 0.0).v(); }
   double EvalStateDeriv(mfem::ElementTransformation &, const IntegrationPoint &, double) override { return 0.0; }
};
template <int D> static void zeroBoundary()
{
   Fix<D, true, 2> f(false, 2, 2);
   Field u(&f.e1, "u"), p(&f.e1, "p");
   ((Vector &)u) = 0.0; u.el = 0.0;
   double al = vp_real("alpha", 0, -2, 2), mu = vp_real("mu", 0, 0.5, 2);
   MCoef nu("nu"); LinCoef lin("nu");
   BCoef g("g");
   miso::NonlinearDGDiffusionIntegrator in(nu, g, mu, al), li(lin, g, mu, al);
   miso::NonlinearDGDiffusionIntegratorMeshRevSens ms(f.sp, u, p, in);
   vp_reach("boundary");
   f.mesh([&]() { Vector e; li.AssembleFaceVector(f.e1, f.e1, f.fc, u.el, e); return e * p.el; }, [&](Vector &m) { ms.AssembleRHSElementVect(f.m1, f.fc, m); });
   DenseMatrix A, B;
   vp_twice(A, [&](auto &vp_o) { in.AssembleFaceGrad(f.e1, f.e1, f.fc, u.el, vp_o); });
   vp_twice(B, [&](auto &vp_o) { li.AssembleFaceGrad(f.e1, f.e1, f.fc, u.el, vp_o); });
   vp_true("the Jacobian has the size of the state", A.Height() == 2 && A.Width() == 2);
   for (int i = 0; i < 2; ++i) { for (int j = 0; j < 2; ++j) { vp_eq(DJ, A(i, j), B(i, j)); } }
}
VP_HARNESS(h_zero_boundary_2) { zeroBoundary<2>(); }
VP_HARNESS(h_zero_boundary_3) { zeroBoundary<3>(); }
template <int D> static void zeroInterior()
{
   Fix<D, false, 2> f(true, 2, 2);
   Field2 u(&f.e1, &f.e2, "u"), p(&f.e1, &f.e2, "p");
   ((Vector &)u) = 0.0; u.both = 0.0;
   double al = vp_real("alpha", 0, -2, 2), mu = vp_real("mu", 0, 0.5, 2);
   MCoef nu("nu"); LinCoef lin("nu");
   miso::DGInteriorFaceDiffusionIntegrator in(nu, mu, al), li(lin, mu, al);
   miso::DGInteriorFaceDiffusionIntegratorMeshRevSens ms(f.sp, u, p, in);
   vp_reach("interior");
   f.mesh([&]() { Vector e; li.AssembleFaceVector(f.e1, f.e2, f.fc, u.both, e); return e * p.both; }, [&](Vector &m) { ms.AssembleRHSElementVect(f.m1, f.m2, f.fc, m); });
   DenseMatrix A, B;
   vp_twice(A, [&](auto &vp_o) { in.AssembleFaceGrad(f.e1, f.e2, f.fc, u.both, vp_o); });
   vp_twice(B, [&](auto &vp_o) { li.AssembleFaceGrad(f.e1, f.e2, f.fc, u.both, vp_o); });
   vp_true("the Jacobian has the size of the state", A.Height() == 4 && A.Width() == 4);
   for (int i = 0; i < 4; ++i) { for (int j = 0; j < 4; ++j) { vp_eq(DJ, A(i, j), B(i, j)); } }
}
VP_HARNESS(h_zero_interior_2) { zeroInterior<2>(); }
