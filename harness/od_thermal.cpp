// VP-ODL
// VP-DEFS -Doverride=
// Thermal boundary, interface and projection terms of thermal_integ.cpp, their
// Jacobians and their sensitivities.
#include "std_model.hpp"
#include "mfem_iso_model.hpp"
#include <list>
#include "mfem_iso_priv.hpp"
#include "coefficient.hpp"
#include "thermal_integ.cpp"
#include "miso_input.cpp"
#include "iso_fixture.hpp"
#include "face_fixture.hpp"
static const char *DX = "the mesh sensitivity is the derivative of the adjoint-weighted residual in the node coordinates";
static const char *RQ = "the residual is the quadrature of its integrand";
static const char *DJ = "the Jacobian is the derivative of the residual in the state";
static const char *DP = "the sensitivity is the derivative of the adjoint-weighted residual in the parameter";
enum { N1 = 3, N2 = 2 };
static void sameRule(int g, int o, const char *what) { vp_ieq(what, vp_world.order, o); vp_ieq("the quadrature is that of the face", vp_world.geom, g); }

// ------------------------------------------------- terms on the boundary
// residual_i = sum_q alpha w_q dS_q F(u_q) N_i(q), on the only element of the face
template <int D, class In, class MS, class F> struct Bdr
{
   Rule r; MeshEl me; Iso t; SideEl el; Face fc; Field u, p; In &in;
   Bdr(In &in) : me(D, "mN"), t(me, D, "X"), el(D, N1, 2, 1), fc(D, "Y", t, nullptr, true), u(&el, "u"), p(&el, "p"), in(in) { fc.valid(); el.arbitrary("N", nullptr); }
   void residual(F f)
   {
      Vector e;
      vp_twice(e, [&](auto &vp_o) { in.AssembleFaceVector(el, el, fc, u.el, vp_o); });
      vp_ieq("one residual per degree of freedom", e.Size(), N1);
      vp_ieq("the quadrature is that of the face", vp_world.geom, fc.GetGeometryType());
      for (int i = 0; i < N1; ++i)
      {
         double v = 0.0;
         for (int q = 0; q < NQ; ++q) { double s = 0.0; for (int j = 0; j < N1; ++j) { s += el.s[q][j] * u.el(j); } v += r.w(q) * fc.area(q) * f(s) * el.s[q][i]; }
         vp_eq(RQ, e(i), v);
      }
   }
   double fun() { Vector e; in.AssembleFaceVector(el, el, fc, u.el, e); return e * p.el; }
   void jac()
   {
      double J[N1 * N1];
      jacobian([&](double *x, double *y) { Vector v(x, N1), e; in.AssembleFaceVector(el, el, fc, v, e); for (int i = 0; i < N1; ++i) { y[i] = e(i); } }, u.el.GetData(), N1, N1, J);
      const int o = vp_world.order; vp_world.order = -1; vp_world.asked = 0;
      DenseMatrix A;
      vp_twice(A, [&](auto &vp_o) { in.AssembleFaceGrad(el, el, fc, u.el, vp_o); });
      if (vp_world.asked) { sameRule(fc.GetGeometryType(), o, "Jacobian and residual use the same quadrature order"); }
      vp_true("the Jacobian has the size of the state", A.Height() == N1 && A.Width() == N1);
      for (int i = 0; i < N1; ++i) { for (int j = 0; j < N1; ++j) { vp_eq(DJ, A(i, j), J[i * N1 + j]); } }
   }
   void mesh()
   {
      MS ms(u, p, in);
      // the boundary element itself, as the boundary integrators of a linear form get it
      mfem::IsoparametricTransformation bt;
      bt.SetFE(&fc.fe); bt.ElementNo = vp_world.faceno; bt.Attribute = 1;
      meshSens(fc, [&]() { return fun(); }, [&](Vector &m) { ms.AssembleRHSElementVect(fc.fe, bt, m); }, DX);
   }
   template <class S> void par(double &a, S &s)
   {
      double g;
      vp_world.order = -1;
      const double a0 = a;
      double x = a;
      gradient([&](double *y) { a = *y; return fun(); }, &x, 1, &g);
      a = a0;
      const int o = vp_world.order;
      vp_eq(DP, s.GetFaceEnergy(el, el, fc, u.el), g);
      sameRule(fc.GetGeometryType(), o, "sensitivity and residual use the same quadrature order");
   }
};
template <int D> static void test()
{
   miso::TestBCIntegrator in;
   auto f = [](double s) { return s; };
   Bdr<D, miso::TestBCIntegrator, miso::TestBCIntegratorMeshRevSens, decltype(f)> b(in);
   vp_reach("boundary"); b.residual(f); b.mesh();
}
VP_HARNESS(h_bdr_test_2) { test<2>(); }
VP_HARNESS(h_bdr_test_3) { test<3>(); }
template <int D> static void convection()
{
   double h = vp_real("h", 0, 0.5, 2), tf = vp_real("tf", 0, -1, 1), al = vp_real("alpha", 0, -2, 2);
   miso::ConvectionBCIntegrator in(h, tf, al);
   auto f = [&](double s) { return al * h * (s - tf); };
   Bdr<D, miso::ConvectionBCIntegrator, miso::ConvectionBCIntegratorMeshRevSens, decltype(f)> b(in);
   miso::ConvectionBCIntegratorHRevSens hs(b.p, in);
   miso::ConvectionBCIntegratorFluidTempRevSens ts(b.p, in);
   vp_reach("boundary"); b.residual(f); b.jac(); b.mesh(); b.par(in.h, hs); b.par(in.theta_f, ts);
}
VP_HARNESS(h_bdr_convection_2) { convection<2>(); }
VP_HARNESS(h_bdr_convection_3) { convection<3>(); }
template <int D> static void outflux()
{
   double k = vp_real("flux", 0, -2, 2), al = vp_real("alpha", 0, -2, 2);
   miso::OutfluxBCIntegrator in(k, al);
   auto f = [&](double) { return al * k; };
   Bdr<D, miso::OutfluxBCIntegrator, miso::OutfluxBCIntegratorMeshRevSens, decltype(f)> b(in);
   vp_reach("boundary"); b.residual(f); b.jac(); b.mesh();
}
VP_HARNESS(h_bdr_outflux_2) { outflux<2>(); }
VP_HARNESS(h_bdr_outflux_3) { outflux<3>(); }

// ----------------------------------------- terms on a face between elements
// residual of side k: sum_q alpha w_q dS_q F_k(u1_q, u2_q) N_i
template <int D, class In, class MS, class F> struct Itf
{
   Rule r; MeshEl me; Iso t1, t2; SideEl e1, e2; Face fc; Field2 u, p; MeshSpace sp; In &in;
   Itf(In &in, bool bdr, int o1, int o2) : me(D, "mN"), t1(me, D, "X", 3), t2(me, D, "Z", 5), e1(D, N1, o1, 1), e2(D, N2, o2, 2), fc(D, "Y", t1, &t2, bdr), u(&e1, &e2, "u"), p(&e1, &e2, "p"), sp(D), in(in) { fc.valid(); e1.arbitrary("N", nullptr); e2.arbitrary("M", nullptr); }
   void residual(F f)
   {
      Vector e;
      vp_twice(e, [&](auto &vp_o) { in.AssembleFaceVector(e1, e2, fc, u.both, vp_o); });
      vp_ieq("one residual per degree of freedom", e.Size(), N1 + N2);
      vp_ieq("the quadrature is that of the face", vp_world.geom, fc.GetGeometryType());
      for (int i = 0; i < N1 + N2; ++i)
      {
         double v = 0.0;
         for (int q = 0; q < NQ; ++q) { v += r.w(q) * fc.area(q) * f(i < N1 ? 1 : 2, u.at1(e1, q), u.at2(e2, q)) * (i < N1 ? e1.s[q][i] : e2.s[vp_other(q)][i - N1]); }
         vp_eq(RQ, e(i), v);
      }
   }
   double fun() { Vector e; in.AssembleFaceVector(e1, e2, fc, u.both, e); return e * p.both; }
   void jac()
   {
      const int n = N1 + N2;
      double J[25];
      jacobian([&](double *x, double *y) { Vector v(x, n), e; in.AssembleFaceVector(e1, e2, fc, v, e); for (int i = 0; i < n; ++i) { y[i] = e(i); } }, u.both.GetData(), n, n, J);
      const int o = vp_world.order; vp_world.order = -1;
      DenseMatrix A;
      vp_twice(A, [&](auto &vp_o) { in.AssembleFaceGrad(e1, e2, fc, u.both, vp_o); });
      sameRule(fc.GetGeometryType(), o, "Jacobian and residual use the same quadrature order");
      vp_true("the Jacobian has the size of the state", A.Height() == n && A.Width() == n);
      for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { vp_eq(DJ, A(i, j), J[i * n + j]); } }
   }
   void mesh()
   {
      MS ms(sp, u, p, in);
      faceSens(fc, sp, [&]() { return fun(); }, [&](Vector &m) { ms.AssembleRHSElementVect(sp.m1, sp.m2, fc, m); }, DX);
   }
   template <class S> void par(double &a, S &s)
   {
      double g;
      vp_world.order = -1;
      const double a0 = a;
      double x = a;
      gradient([&](double *y) { a = *y; return fun(); }, &x, 1, &g);
      a = a0;
      const int o = vp_world.order;
      vp_eq(DP, s.GetFaceEnergy(e1, e2, fc, u.both), g);
      sameRule(fc.GetGeometryType(), o, "sensitivity and residual use the same quadrature order");
   }
};
template <int D> static void contact(bool bdr, int o1, int o2)
{
   double h = vp_real("h", 0, 0.5, 2), al = vp_real("alpha", 0, -2, 2);
   miso::ThermalContactResistanceIntegrator in(h, "", al);
   auto f = [&](int k, double a, double b) { return (k == 1 ? 1 : -1) * al * h * (a - b); };
   Itf<D, miso::ThermalContactResistanceIntegrator, miso::ThermalContactResistanceIntegratorMeshRevSens, decltype(f)> b(in, bdr, o1, o2);
   miso::ThermalContactResistanceIntegratorHRevSens hs(b.u, b.p, in);
   vp_reach("interface"); b.residual(f); b.jac(); b.mesh(); b.par(in.h, hs);
}
VP_HARNESS(h_contact_bdr_2) { contact<2>(true, 2, 3); }
VP_HARNESS(h_contact_face_2) { contact<2>(false, 3, 2); }
VP_HARNESS(h_contact_bdr_3) { contact<3>(true, 2, 3); }
VP_HARNESS(h_contact_face_3) { contact<3>(false, 2, 2); }
template <int D> static void internalConv(bool bdr, int o1, int o2)
{
   double h = vp_real("h", 0, 0.5, 2), tf = vp_real("tf", 0, -1, 1), al = vp_real("alpha", 0, -2, 2);
   miso::InternalConvectionInterfaceIntegrator in(h, tf, "", al);
   auto f = [&](int k, double a, double b) { return al * h * ((k == 1 ? a : b) - tf); };
   Itf<D, miso::InternalConvectionInterfaceIntegrator, miso::InternalConvectionInterfaceIntegratorMeshRevSens, decltype(f)> b(in, bdr, o1, o2);
   miso::InternalConvectionInterfaceIntegratorHRevSens hs(b.u, b.p, in);
   miso::InternalConvectionInterfaceIntegratorFluidTempRevSens ts(b.p, in);
   vp_reach("interface"); b.residual(f); b.jac(); b.mesh(); b.par(in.h, hs); b.par(in.theta_f, ts);
}
VP_HARNESS(h_intconv_bdr_2) { internalConv<2>(true, 2, 3); }
VP_HARNESS(h_intconv_face_2) { internalConv<2>(false, 3, 2); }
VP_HARNESS(h_intconv_bdr_3) { internalConv<3>(true, 2, 3); }
VP_HARNESS(h_intconv_face_3) { internalConv<3>(false, 2, 2); }

// ------------------------------------------------------- L2 projection
template <int D> static void projection()
{
   Rule r; MeshEl me(D); Iso t(me, D, "X"); t.valid();
   El el(D, N1, 2); el.arbitrary("N", nullptr);
   Field u(&el, "u"), p(&el, "p");
   double al = vp_real("alpha", 0, -2, 2);
   Coef g("g");
   miso::L2ProjectionIntegrator in(g, al);
   miso::L2ProjectionIntegratorMeshRevSens ms(u, p, in);
   vp_reach("projection");
   Vector e;
   vp_twice(e, [&](auto &vp_o) { in.AssembleElementVector(el, t, u.el, vp_o); });
   vp_ieq("one residual per degree of freedom", e.Size(), N1);
   for (int i = 0; i < N1; ++i)
   {
      double v = 0.0;
      for (int q = 0; q < NQ; ++q) { double s = 0.0; for (int j = 0; j < N1; ++j) { s += el.s[q][j] * u.el(j); } v += al * r.w(q) * t.det(q) * (s - g.at(t, q)) * el.s[q][i]; }
      vp_eq(RQ, e(i), v);
   }
   double J[N1 * N1];
   jacobian([&](double *x, double *y) { Vector v(x, N1), d; in.AssembleElementVector(el, t, v, d); for (int i = 0; i < N1; ++i) { y[i] = d(i); } }, u.el.GetData(), N1, N1, J);
   const int o = vp_world.order; vp_world.order = -1;
   DenseMatrix A;
   vp_twice(A, [&](auto &vp_o) { in.AssembleElementGrad(el, t, u.el, vp_o); });
   vp_ieq("Jacobian and residual use the same quadrature order", vp_world.order, o);
   vp_true("the Jacobian has the size of the state", A.Height() == N1 && A.Width() == N1);
   for (int i = 0; i < N1; ++i) { for (int j = 0; j < N1; ++j) { vp_eq(DJ, A(i, j), J[i * N1 + j]); } }
   meshSens(t, [&]() { Vector d; in.AssembleElementVector(el, t, u.el, d); return d * p.el; }, [&](Vector &m) { ms.AssembleRHSElementVect(me, t, m); }, DX);
}
VP_HARNESS(h_projection_2) { projection<2>(); }
VP_HARNESS(h_projection_3) { projection<3>(); }

// ------------------------------------------------------- named inputs
// every parameter takes the value of the input of its own name, nothing else
static void named(bool with)
{
   const char *L = "an input sets the parameter of its name and no other";
   double a[6], b[6];
   for (int i = 0; i < 6; ++i) { a[i] = vp_real("a", i, -2, 2); b[i] = vp_real("b", i, -2, 2); }
   miso::ThermalContactResistanceIntegrator tc(a[0], with ? "gap" : "", a[1]);
   miso::InternalConvectionInterfaceIntegrator ic(a[2], a[3], with ? "gap" : "", a[1]);
   miso::ConvectionBCIntegrator cv(a[4], a[5], a[1]);
   miso::OutfluxBCIntegrator of(a[0], a[1]);
   vp_reach("inputs");
   auto check = [&](double h, double hc, double tf, double cvh, double cvt, double fl)
   {
      vp_eq(L, tc.h, h); vp_eq(L, tc.alpha, a[1]);
      vp_eq(L, ic.h, hc); vp_eq(L, ic.theta_f, tf); vp_eq(L, ic.alpha, a[1]);
      vp_eq(L, cv.h, cvh); vp_eq(L, cv.theta_f, cvt); vp_eq(L, cv.alpha, a[1]);
      vp_eq(L, of.flux, fl); vp_eq(L, of.alpha, a[1]);
   };
   auto put = [&](const miso::MISOInputs &in) { setInputs(tc, in); setInputs(ic, in); setInputs(cv, in); setInputs(of, in); };
   { miso::MISOInputs in; put(in); check(a[0], a[2], a[3], a[4], a[5], a[0]); }
   { miso::MISOInputs in; in["outflux"] = b[0]; put(in); check(a[0], a[2], a[3], a[4], a[5], b[0]); }
   { miso::MISOInputs in; in["h"] = b[1]; in["alpha"] = b[5]; put(in); check(with ? a[0] : b[1], with ? a[2] : b[1], a[3], b[1], a[5], b[0]); }
   { miso::MISOInputs in; in["fluid_temp"] = b[2]; put(in); check(with ? a[0] : b[1], with ? a[2] : b[1], with ? a[3] : b[2], b[1], b[2], b[0]); }
   { miso::MISOInputs in; in["h:gap"] = b[3]; in["h:other"] = b[5]; put(in); check(with ? b[3] : b[1], with ? b[3] : b[1], with ? a[3] : b[2], b[1], b[2], b[0]); }
   { miso::MISOInputs in; in["fluid_temp:gap"] = b[4]; put(in); check(with ? b[3] : b[1], with ? b[3] : b[1], with ? b[4] : b[2], b[1], b[2], b[0]); }
}
VP_HARNESS(h_inputs_plain) { named(false); }
VP_HARNESS(h_inputs_named) { named(true); }
