// VP-ODL
// VP-DEFS -Doverride=
// Output and residual integrators of mfem_common_integ.cpp and their sensitivities.
#include "std_model.hpp"
#include "mfem_iso_model.hpp"
#include <list>
#include "mfem_iso_priv.hpp"
#include "coefficient.hpp"
#include "mfem_common_integ.cpp"
#include "miso_input.cpp"
#include "iso_fixture.hpp"
static const char *DU = "the element vector is the derivative of the functional in the state";
static const char *DX = "the mesh sensitivity is the derivative of the functional in the node coordinates";

// ---------------------------------------- assumed contracts of the overlay
template <int D> static void odl()
{
   Rule r; MeshEl me(D, "mN", "mD"); Iso t(me, D, "X"); t.valid();
   vp_reach("odl");
   t.SetIntPoint(&r.IntPoint(0));
   double b[9];
   DenseMatrix B(D, D), P(D, D);
   for (int i = 0; i < D * D; ++i) { b[i] = vp_real("B", i, -1, 1); B.GetData()[i] = b[i]; }
   double g[9];
   auto dot = [&](const DenseMatrix &A) { double s = 0.0; for (int i = 0; i < D * D; ++i) { s += b[i] * A.GetData()[i]; } return s; };
   auto chk = [&](const char *l) { t.put(t.X); t.SetIntPoint(&r.IntPoint(0)); (void)l; };
   auto cmp = [&](const char *l) { for (int d = 0; d < D; ++d) { for (int j = 0; j < D; ++j) { vp_eq(l, P(d, j), g[d * D + j]); } } };
   gradient([&](double *x) { t.put(x); t.SetIntPoint(&r.IntPoint(0)); return t.Weight(); }, t.X, D * D, g); chk(""); P = 0.0; t.WeightRevDiff(1.0, P); cmp("WeightRevDiff");
   gradient([&](double *x) { t.put(x); t.SetIntPoint(&r.IntPoint(0)); return dot(t.Jacobian()); }, t.X, D * D, g); chk(""); P = 0.0; t.JacobianRevDiff(B, P); cmp("JacobianRevDiff");
   gradient([&](double *x) { t.put(x); t.SetIntPoint(&r.IntPoint(0)); return dot(t.AdjugateJacobian()); }, t.X, D * D, g); chk(""); P = 0.0; t.AdjugateJacobianRevDiff(B, P); cmp("AdjugateJacobianRevDiff");
   gradient([&](double *x) { t.put(x); t.SetIntPoint(&r.IntPoint(0)); return dot(t.InverseJacobian()); }, t.X, D * D, g); chk(""); P = 0.0; t.InverseJacobianRevDiff(B, P); cmp("InverseJacobianRevDiff");
}
VP_HARNESS(h_odl_2) { odl<2>(); }
VP_HARNESS(h_odl_3) { odl<3>(); }

// ---------------------------------------------------------- volume
template <int D> static void volume(int mode) // 0: no coefficient, 1: null coefficient, 2: coefficient
{
   Rule r; MeshEl me(D); Iso t(me, D, "X"); t.valid();
   El el(D, 3, 2); el.arbitrary("N", nullptr);
   Field u(&el, "u");
   Coef rho("rho"); mfem::Coefficient *pr = mode == 2 ? &rho : nullptr;
   miso::VolumeIntegrator in(mode ? &pr : nullptr);
   miso::VolumeIntegratorMeshSens ms(u, in);
   vp_reach("volume");
   double v = 0.0;
   for (int q = 0; q < NQ; ++q) { v += r.w(q) * t.det(q) * (mode == 2 ? rho.at(t, q) : 1.0); }
   vp_eq("volume (mass) of the element", in.GetElementEnergy(el, t, u.el), v);
   meshSens(t, [&]() { return in.GetElementEnergy(el, t, u.el); }, [&](Vector &m) { ms.AssembleRHSElementVect(me, t, m); }, DX);
   stateSens([&](Vector &w) { return in.GetElementEnergy(el, t, w); }, [&](Vector &w, Vector &e) { in.AssembleElementVector(el, t, w, e); }, u.el, DU);
}
VP_HARNESS(h_volume_none_2) { volume<2>(0); }
VP_HARNESS(h_volume_null_2) { volume<2>(1); }
VP_HARNESS(h_volume_coef_2) { volume<2>(2); }
VP_HARNESS(h_volume_coef_3) { volume<3>(2); }

// ------------------------------------------- functionals of a scalar state
// element functional = sum_q w_q det J_q F(value of the state at q)
template <int D, class In, class MS, class F> static void scalar(In &in, F f, double lo = -1, double hi = 1)
{
   Rule r; MeshEl me(D); Iso t(me, D, "X"); t.valid();
   El el(D, 3, 2); el.arbitrary("N", nullptr);
   Field u(&el, "u", true, lo, hi);
   MS ms(u, in);
   vp_reach("scalar");
   double v = 0.0;
   for (int q = 0; q < NQ; ++q) { double g = 0.0; for (int i = 0; i < 3; ++i) { g += el.s[q][i] * u.el(i); } v += r.w(q) * t.det(q) * f(g); }
   vp_eq("functional is the quadrature of its integrand", in.GetElementEnergy(el, t, u.el), v);
   meshSens(t, [&]() { return in.GetElementEnergy(el, t, u.el); }, [&](Vector &m) { ms.AssembleRHSElementVect(me, t, m); }, DX);
   stateSens([&](Vector &w) { return in.GetElementEnergy(el, t, w); }, [&](Vector &w, Vector &e) { in.AssembleElementVector(el, t, w, e); }, u.el, DU);
}
template <int D> static void state() { miso::StateIntegrator in; scalar<D, miso::StateIntegrator, miso::StateIntegratorMeshSens>(in, [](double g) { return g; }); }
VP_HARNESS(h_state_2) { state<2>(); }
VP_HARNESS(h_state_3) { state<3>(); }
// the gradient alone, of a newly constructed integrator
VP_HARNESS(h_state_vector)
{
   Rule r; MeshEl me(2); Iso t(me, 2, "X"); t.valid();
   El el(2, 3, 2); el.arbitrary("N", nullptr);
   Field u(&el, "u");
   miso::StateIntegrator in;
   Vector e;
   vp_reach("vector");
   vp_twice(e, [&](auto &vp_o) { in.AssembleElementVector(el, t, u.el, vp_o); });
   for (int i = 0; i < 3; ++i) { double v = 0.0; for (int q = 0; q < NQ; ++q) { v += r.w(q) * t.det(q) * el.s[q][i]; } vp_eq(DU, e(i), v); }
}
template <int D, bool NUM, class In, class MS> static void ie()
{
   double rho = vp_real("rho", 0, 0.3, 2), tm = vp_real("true_max", 0, 0.5, 2);
   In in(rho); in.true_max = tm;
   scalar<D, In, MS>(in, [&](double g) { return (NUM ? g : 1.0) * exp(rho * (g - tm)); });
}
VP_HARNESS(h_ie_num_2) { ie<2, true, miso::IEAggregateIntegratorNumerator, miso::IEAggregateIntegratorNumeratorMeshSens>(); }
VP_HARNESS(h_ie_den_2) { ie<2, false, miso::IEAggregateIntegratorDenominator, miso::IEAggregateIntegratorDenominatorMeshSens>(); }
VP_HARNESS(h_ie_num_3) { ie<3, true, miso::IEAggregateIntegratorNumerator, miso::IEAggregateIntegratorNumeratorMeshSens>(); }
VP_HARNESS(h_ie_den_3) { ie<3, false, miso::IEAggregateIntegratorDenominator, miso::IEAggregateIntegratorDenominatorMeshSens>(); }

// ----------------------------------- functionals of the magnitude of the curl
// (2D: the state is the out-of-plane potential, 3D: an H(curl) field)
template <int D, class In, class MS, class F> static void curl(In &in, F f, bool quad = false)
{
   Rule r; MeshEl me(D, "mN", nullptr, quad); Iso t(me, D, "X"); t.valid();
   El el(D, 3, 2, quad, D == 3); if (D == 3) { el.arbitraryV(nullptr, "C"); } else { el.arbitrary(nullptr, "C"); }
   Field u(&el, "u");
   MS ms(u, in);
   double v = 0.0;
   for (int q = 0; q < NQ; ++q)
   {
      double c[3] = {0, 0, 0}, n = 0.0;
      for (int a = 0; a < D; ++a) { for (int i = 0; i < 3; ++i) { for (int b = 0; b < D; ++b) { c[a] += u.el(i) * (D == 3 ? el.c[q][i][b] * t.J(q, a, b) : el.d[q][i][b] * t.adj(q, b, a)); } } n += c[a] * c[a]; }
      vp_assume(n > 0.01);
      v += r.w(q) * t.det(q) * f(sqrt(n) / t.det(q));
   }
   vp_reach("curl");
   vp_eq("functional is the quadrature of its integrand", in.GetElementEnergy(el, t, u.el), v);
   meshSens(t, [&]() { return in.GetElementEnergy(el, t, u.el); }, [&](Vector &m) { ms.AssembleRHSElementVect(me, t, m); }, DX);
   stateSens([&](Vector &w) { return in.GetElementEnergy(el, t, w); }, [&](Vector &w, Vector &e) { in.AssembleElementVector(el, t, w, e); }, u.el, DU);
}
template <int D> static void magcurl(bool quad = false) { miso::MagnitudeCurlStateIntegrator in; curl<D, miso::MagnitudeCurlStateIntegrator, miso::MagnitudeCurlStateIntegratorMeshSens>(in, [](double b) { return b; }, quad); }
VP_HARNESS(h_curl_2) { magcurl<2>(); }
VP_HARNESS(h_curl_2q) { magcurl<2>(true); }
VP_HARNESS(h_curl_3) { magcurl<3>(); }
template <int D, bool NUM, class In, class MS> static void iecurl(bool quad = false)
{
   double rho = vp_real("rho", 0, 0.3, 2), am = vp_real("actual_max", 0, 0.5, 2);
   vp_assume(am > 0);
   In in(rho, am);
   curl<D, In, MS>(in, [&](double b) { return (NUM ? b : 1.0) * exp(rho * (b / am)); }, quad);
}
VP_HARNESS(h_iecurl_num_2) { iecurl<2, true, miso::IECurlMagnitudeAggregateIntegratorNumerator, miso::IECurlMagnitudeAggregateIntegratorNumeratorMeshSens>(); }
VP_HARNESS(h_iecurl_num_2q) { iecurl<2, true, miso::IECurlMagnitudeAggregateIntegratorNumerator, miso::IECurlMagnitudeAggregateIntegratorNumeratorMeshSens>(true); }
VP_HARNESS(h_iecurl_num_3) { iecurl<3, true, miso::IECurlMagnitudeAggregateIntegratorNumerator, miso::IECurlMagnitudeAggregateIntegratorNumeratorMeshSens>(); }
VP_HARNESS(h_iecurl_den_2) { iecurl<2, false, miso::IECurlMagnitudeAggregateIntegratorDenominator, miso::IECurlMagnitudeAggregateIntegratorDenominatorMeshSens>(); }
VP_HARNESS(h_iecurl_den_2q) { iecurl<2, false, miso::IECurlMagnitudeAggregateIntegratorDenominator, miso::IECurlMagnitudeAggregateIntegratorDenominatorMeshSens>(true); }
VP_HARNESS(h_iecurl_den_3) { iecurl<3, false, miso::IECurlMagnitudeAggregateIntegratorDenominator, miso::IECurlMagnitudeAggregateIntegratorDenominatorMeshSens>(); }

// ------------------------------------------ proximity to demagnetisation (2D)
template <bool NUM, class In> static void demag(int with)   // with: 0 no temperature, 1 temperature field
{
   Rule r; MeshEl me(2); Iso t(me, 2, "X"); t.valid();
   El el(2, 3, 2);
   El te(2, 3, 2); te.arbitrary("T", nullptr);
   El be(2, 3, 1); be.arbitrary("b", nullptr);
   Field th(&te, "th"), B(&be, "B", true, -1, 1, 2);
   SCoef knee("knee"); SVCoef M(VN, 2);
   double rho = vp_real("rho", 0, 0.3, 2), tm = vp_real("true_max", 0, 0.5, 2);
   In in(rho, knee, M, with ? &th : nullptr, &B); in.true_max = tm;
   double v = 0.0;
   for (int q = 0; q < NQ; ++q)
   {
      double T = with ? 0.0 : 100 + 273.15, b0 = 0.0, b1 = 0.0;
      for (int i = 0; i < 3; ++i) { if (with) { T += te.s[q][i] * th.el(i); } b0 += be.s[q][i] * B.el(i); b1 += be.s[q][i] * B.el(3 + i); }
      double m0 = M.at(t, q, T, 0), m1 = M.at(t, q, T, 1), n = m0 * m0 + m1 * m1;
      vp_assume(n > 0.01);
      double g = knee.at(t, q, T) - (b0 * m0 + b1 * m1) / sqrt(n);
      v += r.w(q) * t.det(q) * (NUM ? g : 1.0) * exp(rho * (g - tm));
   }
   vp_reach("demag");
   Vector none;
   vp_eq("functional is the quadrature of its integrand", in.GetElementEnergy(el, t, none), v);
   vp_ieq("quadrature order", vp_world.order, 4);
}
VP_HARNESS(h_demag_num) { demag<true, miso::IEAggregateDemagIntegratorNumerator>(1); }
VP_HARNESS(h_demag_den) { demag<false, miso::IEAggregateDemagIntegratorDenominator>(1); }
VP_HARNESS(h_demag_num_dflt) { demag<true, miso::IEAggregateDemagIntegratorNumerator>(0); }
VP_HARNESS(h_demag_den_dflt) { demag<false, miso::IEAggregateDemagIntegratorDenominator>(0); }

// -------------------------------------------------- normal flux on a boundary
template <int D> static void flux()
{
   Rule r; MeshEl me(D); Iso t(me, D, "X"); t.valid();
   El el(D, 3, 2); el.arbitrary(nullptr, "dN");
   BdrFace fc(t, "Y");
   Field u(&el, "u", false);
   Coef k("kappa");
   miso::BoundaryNormalIntegrator in(k);
   vp_reach("flux");
   double v = 0.0;
   for (int q = 0; q < NQ; ++q)
   {
      // -kappa grad(u) . n dS with the physical gradient and the scaled normal
      double s = 0.0;
      for (int a = 0; a < D; ++a) { for (int b = 0; b < D; ++b) { for (int i = 0; i < 3; ++i) { s += u.el(i) * el.d[q][i][b] * t.adj(q, b, a) / t.det(q) * fc.normal(q, a); } } }
      v -= r.w(q) * k.at(t, q) * s;
   }
   vp_eq("flux is the quadrature of -kappa du/dn", in.GetFaceEnergy(el, el, fc, u.el), v);
   vp_ieq("quadrature on the face", vp_world.geom, fc.GetGeometryType());
   stateSens([&](Vector &w) { return in.GetFaceEnergy(el, el, fc, w); }, [&](Vector &w, Vector &e) { in.AssembleFaceVector(el, el, fc, w, e); }, u.el, DU);
}
VP_HARNESS(h_flux_2) { flux<2>(); }
VP_HARNESS(h_flux_3) { flux<3>(); }

// -------------------- node derivatives of the adjoint-weighted linear operators
static void asked(int g, int o) { vp_world.geom = g; vp_world.order = o; vp_world.asked++; }
static const char *DR = "the mesh sensitivity is the derivative of the adjoint-weighted residual in the node coordinates";
// grad psi . grad u, both physical
template <int D> static void diffusion(bool quad = false)
{
   Rule r; MeshEl me(D, "mN", nullptr, quad); Iso t(me, D, "X"); t.valid();
   El el(D, 3, 2, quad); el.arbitrary(nullptr, "dN");
   Field u(&el, "u"), p(&el, "p");
   miso::DiffusionIntegratorMeshSens ms; ms.setState(u); ms.setAdjoint(p);
   vp_reach("diffusion");
   meshSens(t, [&]()
   {
      double v = 0.0;
      asked(el.GetGeomType(), quad ? 2 * 2 + D - 1 : 2 * 2 - 2);
      for (int q = 0; q < NQ; ++q)
         for (int a = 0; a < D; ++a)
         {
            double gu = 0.0, gp = 0.0;
            for (int b = 0; b < D; ++b) { for (int i = 0; i < 3; ++i) { double g = el.d[q][i][b] * t.adj(q, b, a); gu += u.el(i) * g; gp += p.el(i) * g; } }
            v += r.w(q) / t.det(q) * gu * gp;
         }
      return v;
   }, [&](Vector &m) { ms.AssembleRHSElementVect(me, t, m); }, DR);
}
VP_HARNESS(h_diffusion_2) { diffusion<2>(); }
VP_HARNESS(h_diffusion_2q) { diffusion<2>(true); }
VP_HARNESS(h_diffusion_3) { diffusion<3>(); }
// -grad psi . u (state in H(curl))
template <int D> static void weakdiv(bool quad = false)
{
   Rule r; MeshEl me(D, "mN", nullptr, quad); Iso t(me, D, "X"); t.valid();
   El nd(D, 3, 2, quad, true); nd.arbitraryV("V", nullptr);
   El h1(D, 3, 3, quad); h1.arbitrary(nullptr, "dN");
   Field u(&nd, "u"), p(&h1, "p");
   miso::VectorFEWeakDivergenceIntegratorMeshSens ms; ms.setState(u); ms.setAdjoint(p);
   vp_reach("weak divergence");
   meshSens(t, [&]()
   {
      double v = 0.0;
      asked(nd.GetGeomType(), quad ? 2 + 3 + 2 * (D - 2) : 2 + 3 - 1);
      for (int q = 0; q < NQ; ++q)
         for (int a = 0; a < D; ++a)
         {
            double gu = 0.0, gp = 0.0;
            for (int b = 0; b < D; ++b) { for (int i = 0; i < 3; ++i) { gu += u.el(i) * nd.v[q][i][b] * t.adj(q, b, a); gp += p.el(i) * h1.d[q][i][b] * t.adj(q, b, a); } }
            v -= r.w(q) / t.det(q) * gu * gp;
         }
      return v;
   }, [&](Vector &m) { ms.AssembleRHSElementVect(me, t, m); }, DR);
}
VP_HARNESS(h_weakdiv_2) { weakdiv<2>(); }
VP_HARNESS(h_weakdiv_3q) { weakdiv<3>(true); }
VP_HARNESS(h_weakdiv_3) { weakdiv<3>(); }
// alpha psi . u, both in H(curl)
template <int D> static void vmass()
{
   Rule r; MeshEl me(D); Iso t(me, D, "X"); t.valid();
   El el(D, 3, 2, false, true); el.arbitraryV("V", nullptr);
   Field u(&el, "u"), p(&el, "p");
   double al = vp_real("alpha", 0, -2, 2);
   miso::VectorFEMassIntegratorMeshSens ms(al); ms.setState(u); ms.setAdjoint(p);
   vp_reach("vector mass");
   meshSens(t, [&]()
   {
      double v = 0.0;
      asked(el.GetGeomType(), t.OrderW() + 2 * el.GetOrder());
      for (int q = 0; q < NQ; ++q)
         for (int a = 0; a < D; ++a)
         {
            double gu = 0.0, gp = 0.0;
            for (int b = 0; b < D; ++b) { for (int i = 0; i < 3; ++i) { double g = el.v[q][i][b] * t.adj(q, b, a); gu += u.el(i) * g; gp += p.el(i) * g; } }
            v += al * r.w(q) / t.det(q) * gu * gp;
         }
      return v;
   }, [&](Vector &m) { ms.AssembleRHSElementVect(me, t, m); }, DR);
}
VP_HARNESS(h_vmass_2) { vmass<2>(); }
VP_HARNESS(h_vmass_3) { vmass<3>(); }
// alpha psi . F
template <int D> static void vload()
{
   Rule r; MeshEl me(D); Iso t(me, D, "X"); t.valid();
   El el(D, 3, 2, false, true); el.arbitraryV("V", nullptr);
   Field p(&el, "p"); VCoef F(VN, D);
   double al = vp_real("alpha", 0, -2, 2);
   miso::VectorFEDomainLFIntegratorMeshSens ms(F, al); ms.setAdjoint(p);
   vp_reach("vector load");
   meshSens(t, [&]()
   {
      double v = 0.0;
      asked(el.GetGeomType(), 2 * el.GetOrder());
      for (int q = 0; q < NQ; ++q)
         for (int a = 0; a < D; ++a)
         {
            double gp = 0.0;
            for (int b = 0; b < D; ++b) { for (int i = 0; i < 3; ++i) { gp += p.el(i) * el.v[q][i][b] * t.adj(q, b, a); } }
            v += al * r.w(q) * gp * F.at(t, q, a);
         }
      return v;
   }, [&](Vector &m) { ms.AssembleRHSElementVect(me, t, m); }, DR);
}
VP_HARNESS(h_vload_2) { vload<2>(); }
VP_HARNESS(h_vload_3) { vload<3>(); }
// alpha curl psi . F
template <int D> static void curlload()
{
   enum { C = D == 3 ? 3 : 1 };
   Rule r; MeshEl me(D); Iso t(me, D, "X"); t.valid();
   El el(D, 3, 2, false, true); el.arbitraryV(nullptr, "C");
   Field p(&el, "p"); VCoef F(VN, C);
   double al = vp_real("alpha", 0, -2, 2);
   miso::VectorFEDomainLFCurlIntegrator in(F, al);
   miso::VectorFEDomainLFCurlIntegratorMeshSens ms(in); ms.setAdjoint(p);
   vp_reach("curl load");
   auto value = [&]()
   {
      double v = 0.0;
      asked(el.GetGeomType(), 2 * el.GetOrder());
      for (int q = 0; q < NQ; ++q)
         for (int a = 0; a < C; ++a)
         {
            double gp = 0.0;
            for (int b = 0; b < C; ++b) { for (int i = 0; i < 3; ++i) { gp += p.el(i) * el.c[q][i][b] * (D == 3 ? t.J(q, a, b) : 1.0); } }
            v += al * r.w(q) * gp * F.at(t, q, a);
         }
      return v;
   };
   double v0 = value();
   Vector e;
   vp_twice(e, [&](auto &vp_o) { in.AssembleRHSElementVect(el, t, vp_o); });
   vp_ieq("one load per degree of freedom", e.Size(), 3);
   vp_eq("load weighted with the adjoint", e * p.el, v0);
   meshSens(t, value, [&](Vector &m) { ms.AssembleRHSElementVect(me, t, m); }, DR);
}
VP_HARNESS(h_curlload_2) { curlload<2>(); }
VP_HARNESS(h_curlload_3) { curlload<3>(); }
// alpha psi F
template <int D> static void load(bool quad)
{
   Rule r; MeshEl me(D, "mN", nullptr, quad); Iso t(me, D, "X"); t.valid();
   El el(D, 3, 2, quad); el.arbitrary("N", nullptr);
   Field p(&el, "p"); Coef F("F");
   double al = vp_real("alpha", 0, -2, 2);
   miso::DomainLFIntegrator in(F, al);
   miso::DomainLFIntegratorMeshRevSens ms(p, in);
   vp_reach("load");
   double v = 0.0;
   for (int q = 0; q < NQ; ++q) { double g = 0.0; for (int i = 0; i < 3; ++i) { g += el.s[q][i] * p.el(i); } v += al * r.w(q) * t.det(q) * g * F.at(t, q); }
   auto value = [&]() { Vector e; in.AssembleRHSElementVect(el, t, e); return e * p.el; };
   vp_eq("load weighted with the adjoint", value(), v);
   meshSens(t, value, [&](Vector &m) { ms.AssembleRHSElementVect(me, t, m); }, DR);
}
VP_HARNESS(h_load_2) { load<2>(false); }
VP_HARNESS(h_load_2q) { load<2>(true); }
VP_HARNESS(h_load_3) { load<3>(false); }
