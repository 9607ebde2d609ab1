// VP-ODL
// VP-DEFS -Doverride=
// Electromagnetic residual integrators of electromag_integ.cpp on elements, their
// Jacobians and their sensitivities.
#include "std_model.hpp"
#include "mfem_iso_model.hpp"
#include <list>
#include "mfem_iso_priv.hpp"
#include "coefficient.hpp"
#include "electromag_integ.cpp"
#include "miso_input.cpp"
#include "iso_fixture.hpp"
#include "face_fixture.hpp"
#include "em_fixture.hpp"
static const char *DX = "the mesh sensitivity is the derivative of the adjoint-weighted residual in the node coordinates";
static const char *RQ = "the residual is the quadrature of its integrand";
static const char *DJ = "the Jacobian is the derivative of the residual in the state";
static const char *DP = "the sensitivity is the derivative of the adjoint-weighted residual in the field";
enum { N1 = 3, N2 = 2 };

template <class In> static void elementJac(In &in, const El &el, Iso &t, Vector &u)
{
   const int n = u.Size();
   double J[36];
   vp_world.order = -1;
   jacobian([&](double *x, double *y) { Vector v(x, n), e; in.AssembleElementVector(el, t, v, e); for (int i = 0; i < n; ++i) { y[i] = e(i); } }, u.GetData(), n, n, J);
   const int o = vp_world.order, g = vp_world.geom; vp_world.order = -1;
   DenseMatrix A;
   vp_twice(A, [&](auto &vp_o) { in.AssembleElementGrad(el, t, u, vp_o); });
   vp_ieq("Jacobian and residual use the same quadrature order", vp_world.order, o);
   vp_ieq("Jacobian and residual use the same quadrature geometry", vp_world.geom, g);
   vp_true("the Jacobian has the size of the state", A.Height() == n && A.Width() == n);
   for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { vp_eq(DJ, A(i, j), J[i * n + j]); } }
}

// residual_i = sum_q alpha w_q/det nu(|adj g u|/det) (adj g u).(adj g_i)
template <int D> static void diffusion(bool quad, bool refined = false)
{
   enum { N1 = D == 3 ? 2 : 3 };
   Rule r; PlainEl me(D); Iso t(me, D, "X"); vp_valid(t);
   El el(D, N1, 2, quad); el.arbitrary(nullptr, "d");
   Field u(&el, "u"), p(&el, "p");
   double al = vp_real("alpha", 0, -2, 2);
   MCoef nu("nu"); nu.away = true;
   miso::NonlinearDiffusionIntegrator in(nu, al);
   miso::NonlinearDiffusionIntegratorMeshRevSens ms(u, p, in);
   if (refined) { el.refined(); }
   double G[NQ][3];
   for (int q = 0; q < NQ; ++q)
   {
      for (int a = 0; a < D; ++a) { G[q][a] = 0.0; for (int j = 0; j < N1; ++j) { G[q][a] += u.el(j) * vp_adjgrad(el, t, q, j, a); } }
   }
   vp_reach("diffusion");
   Vector e;
   vp_twice(e, [&](auto &vp_o) { in.AssembleElementVector(el, t, u.el, vp_o); });
   vp_ieq("one residual per degree of freedom", e.Size(), N1);
   vp_ieq("the quadrature is that of the element", vp_world.geom, el.GetGeomType() + (refined ? 100 : 0));   // 100: the rules of the refined element
   for (int i = 0; i < N1; ++i)
   {
      double v = 0.0;
      for (int q = 0; q < NQ; ++q) { double d = 0.0; for (int a = 0; a < D; ++a) { d += G[q][a] * vp_adjgrad(el, t, q, i, a); } v += al * r.w(q) / t.det(q) * nu.at(t, sqrt(vp_norm2(G[q], D)) / t.det(q)) * d; }
      vp_eq(RQ, e(i), v);
   }
   elementJac(in, el, t, u.el);
   meshSens(t, [&]() { Vector d; in.AssembleElementVector(el, t, u.el, d); return d * p.el; }, [&](Vector &m) { ms.AssembleRHSElementVect(me, t, m); }, DX);
}
VP_HARNESS(h_diffusion_2) { diffusion<2>(false); }
VP_HARNESS(h_diffusion_quad) { diffusion<2>(true); }
VP_HARNESS(h_diffusion_refined) { diffusion<2>(true, true); }
VP_HARNESS(h_diffusion_3) { diffusion<3>(false); }

// residual_i = sum_q alpha w_q (M_1 (adj g_i)_0 - M_0 (adj g_i)_1), M at the temperature
template <int K> static void source(bool quad)
{
   const int D = 2;
   Rule r; MeshEl me(D); Iso t(me, D, "X"); vp_valid(t);
   El el(D, N1, 2, quad), te(D, N2, 3, quad); el.arbitrary(nullptr, "d"); te.arbitrary("T", nullptr);
   Field p(&el, "p"), temp(&te, "t");
   double al = vp_real("alpha", 0, -2, 2);
   SVCoef M(VN, D);
   miso::MagnetizationSource2DIntegrator in(M, temp, al);
   miso::MagnetizationSource2DIntegratorMeshRevSens ms(p, in);
   miso::MagnetizationSource2DIntegratorTemperatureSens ts(p, in);
   vp_reach("source");
   Vector e;
   vp_twice(e, [&](auto &vp_o) { in.AssembleRHSElementVect(el, t, vp_o); });
   vp_ieq("one residual per degree of freedom", e.Size(), N1);
   vp_ieq("the quadrature is that of the element", vp_world.geom, el.GetGeomType());
   for (int i = 0; i < N1; ++i)
   {
      double v = 0.0;
      for (int q = 0; q < NQ; ++q)
      {
         double T = 0.0;
         for (int j = 0; j < N2; ++j) { T += temp.el(j) * te.s[q][j]; }
         v += al * r.w(q) * (M.at(t, q, T, 1) * vp_adjgrad(el, t, q, i, 0) - M.at(t, q, T, 0) * vp_adjgrad(el, t, q, i, 1));
      }
      vp_eq(RQ, e(i), v);
   }
   if (K == 0) { meshSens(t, [&]() { Vector d; in.AssembleRHSElementVect(el, t, d); return d * p.el; }, [&](Vector &m) { ms.AssembleRHSElementVect(me, t, m); }, DX); }
   else
   {
      vp_world.order = -1;
      double g[N2];
      Vector x(temp.el);
      // the field itself is moved: degree of freedom i of the element
      gradient([&](double *y) { for (int i = 0; i < N2; ++i) { int at = (i + 1) % N2; temp(at) = (i == 0 ? -y[i] : y[i]) / DofTr::t(i); } Vector d; in.AssembleRHSElementVect(el, t, d); return d * p.el; }, x.GetData(), N2, g);
      for (int i = 0; i < N2; ++i) { int at = (i + 1) % N2; temp(at) = (i == 0 ? -x(i) : x(i)) / DofTr::t(i); }
      const int o = vp_world.order; vp_world.order = -1;
      Vector b;
      vp_twice(b, [&](auto &vp_o) { ts.AssembleRHSElementVect(te, t, vp_o); });
      vp_ieq("sensitivity and residual use the same quadrature order", vp_world.order, o);
      vp_ieq("one sensitivity per temperature", b.Size(), N2);
      for (int i = 0; i < N2; ++i) { vp_eq(DP, b(i), g[i]); }
   }
}
VP_HARNESS(h_source_mesh) { source<0>(false); }
VP_HARNESS(h_source_mesh_quad) { source<0>(true); }
VP_HARNESS(h_source_temp) { source<1>(false); }

// residual_i = sum_q alpha w_q/det nu(|b|/det) b.c_i, c_i = det curl N_i
template <int D> static void curlcurl(bool quad, bool sens)
{
   Rule r; PlainEl me(D); Iso t(me, D, "X"); vp_valid(t);
   El el(D, N1, 2, quad, true); el.arbitraryV(nullptr, "c");
   Field u(&el, "u"), p(&el, "p"), w(&el, "v");
   double al = vp_real("alpha", 0, -2, 2);
   const int C = D == 3 ? 3 : 1;
   MCoef nu("nu"); nu.away = true;
   miso::CurlCurlNLFIntegrator in(nu, al);
   double b[NQ][3];
   for (int q = 0; q < NQ; ++q)
   {
      for (int a = 0; a < C; ++a) { b[q][a] = 0.0; for (int j = 0; j < N1; ++j) { b[q][a] += u.el(j) * vp_detcurl(el, t, q, j, a); } }
   }
   vp_reach("curlcurl");
   Vector e;
   vp_twice(e, [&](auto &vp_o) { in.AssembleElementVector(el, t, u.el, vp_o); });
   vp_ieq("one residual per degree of freedom", e.Size(), N1);
   vp_ieq("the quadrature is that of the element", vp_world.geom, el.GetGeomType());
   for (int i = 0; i < N1; ++i)
   {
      double v = 0.0;
      for (int q = 0; q < NQ; ++q) { double d = 0.0; for (int a = 0; a < C; ++a) { d += b[q][a] * vp_detcurl(el, t, q, i, a); } v += al * r.w(q) / t.det(q) * nu.at(t, sqrt(vp_norm2(b[q], C)) / t.det(q)) * d; }
      vp_eq(RQ, e(i), v);
   }
   if (!sens) { elementJac(in, el, t, u.el); }
   DenseMatrix A;
   vp_twice(A, [&](auto &vp_o) { in.AssembleElementGrad(el, t, u.el, vp_o); });
   miso::CurlCurlNLFIntegratorStateRevSens rs(u, p, in);
   miso::CurlCurlNLFIntegratorStateFwdSens fs(u, w, in);
   Vector a, f;
   vp_twice(a, [&](auto &vp_o) { rs.AssembleRHSElementVect(el, t, vp_o); });
   vp_twice(f, [&](auto &vp_o) { fs.AssembleRHSElementVect(el, t, vp_o); });
   vp_true("one sensitivity per degree of freedom", a.Size() == N1 && f.Size() == N1);
   for (int i = 0; i < N1; ++i)
   {
      double ra = 0.0, rf = 0.0;
      for (int j = 0; j < N1; ++j) { ra += A(j, i) * p.el(j); rf += A(i, j) * w.el(j); }
      vp_eq("the reverse sensitivity is the transposed Jacobian applied to the adjoint", a(i), ra);
      vp_eq("the forward sensitivity is the Jacobian applied to the direction", f(i), rf);
   }
   if (sens)
   {
      miso::CurlCurlNLFIntegratorMeshRevSens ms(u, p, in);
      meshSens(t, [&]() { Vector d; in.AssembleElementVector(el, t, u.el, d); return d * p.el; }, [&](Vector &m) { ms.AssembleRHSElementVect(me, t, m); }, DX);
   }
}
VP_HARNESS(h_curlcurl_3) { curlcurl<3>(false, false); }
VP_HARNESS(h_curlcurl_cube) { curlcurl<3>(true, false); }
VP_HARNESS(h_curlcurl_2) { curlcurl<2>(false, false); }
VP_HARNESS(h_curlcurl_mesh) { curlcurl<3>(false, true); }
VP_HARNESS(h_curlcurl_mesh_cube) { curlcurl<3>(true, true); }
// at a vanishing field the residual vanishes, its Jacobian is that of the linear
// material nu(0), and no sensitivity is left
template <int D> static void diffusionAtZero()
{
   enum { N1 = 2 };
   Rule r; PlainEl me(D); Iso t(me, D, "X"); vp_valid(t);
   El el(D, N1, 2); el.arbitrary(nullptr, "d");
   Field u(&el, "u"), p(&el, "p");
   ((Vector &)u) = 0.0; u.el = 0.0;
   double al = vp_real("alpha", 0, -2, 2);
   MCoef nu("nu");
   miso::NonlinearDiffusionIntegrator in(nu, al);
   miso::NonlinearDiffusionIntegratorMeshRevSens ms(u, p, in);
   vp_reach("zero");
   Vector e, m;
   DenseMatrix A;
   vp_twice(e, [&](auto &vp_o) { in.AssembleElementVector(el, t, u.el, vp_o); });
   vp_twice(A, [&](auto &vp_o) { in.AssembleElementGrad(el, t, u.el, vp_o); });
   vp_twice(m, [&](auto &vp_o) { ms.AssembleRHSElementVect(me, t, vp_o); });
   for (int i = 0; i < N1; ++i)
   {
      vp_eq(RQ, e(i), 0.0);
      for (int j = 0; j < N1; ++j)
      {
         double v = 0.0;
         for (int q = 0; q < NQ; ++q) { double d = 0.0; for (int a = 0; a < D; ++a) { d += vp_adjgrad(el, t, q, i, a) * vp_adjgrad(el, t, q, j, a); } v += al * r.w(q) / t.det(q) * nu.at(t, 0.0) * d; }
         vp_eq(DJ, A(i, j), v);
      }
   }
   for (int i = 0; i < D * D; ++i) { vp_eq(DX, m(i), 0.0); }
}
VP_HARNESS(h_zero_diffusion_2) { diffusionAtZero<2>(); }
VP_HARNESS(h_zero_diffusion_3) { diffusionAtZero<3>(); }
VP_HARNESS(h_zero_curlcurl_3)
{
   enum { N1 = 2 };
   const int D = 3;
   Rule r; PlainEl me(D); Iso t(me, D, "X"); vp_valid(t);
   El el(D, N1, 2, false, true); el.arbitraryV(nullptr, "c");
   Field u(&el, "u"), p(&el, "p");
   ((Vector &)u) = 0.0; u.el = 0.0;
   double al = vp_real("alpha", 0, -2, 2);
   MCoef nu("nu");
   miso::CurlCurlNLFIntegrator in(nu, al);
   miso::CurlCurlNLFIntegratorMeshRevSens ms(u, p, in);
   vp_reach("zero");
   Vector e, m;
   DenseMatrix A;
   vp_twice(e, [&](auto &vp_o) { in.AssembleElementVector(el, t, u.el, vp_o); });
   vp_twice(A, [&](auto &vp_o) { in.AssembleElementGrad(el, t, u.el, vp_o); });
   for (int i = 0; i < N1; ++i)
   {
      vp_eq(RQ, e(i), 0.0);
      for (int j = 0; j < N1; ++j)
      {
         double v = 0.0;
         for (int q = 0; q < NQ; ++q) { double d = 0.0; for (int a = 0; a < D; ++a) { d += vp_detcurl(el, t, q, i, a) * vp_detcurl(el, t, q, j, a); } v += al * r.w(q) / t.det(q) * nu.at(t, 0.0) * d; }
         vp_eq(DJ, A(i, j), v);
      }
   }
   vp_twice(m, [&](auto &vp_o) { ms.AssembleRHSElementVect(me, t, vp_o); });
   for (int i = 0; i < D * D; ++i) { vp_eq(DX, m(i), 0.0); }
}
