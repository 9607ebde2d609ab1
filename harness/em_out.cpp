// VP-ODL
// VP-DEFS -Doverride=
// Electromagnetic output integrators of electromag_integ.cpp: magnetic energy, norms of
// the flux density and the field, their derivatives in the state and the mesh.
#include "std_model.hpp"
#include "mfem_iso_model.hpp"
#include <list>
#include "mfem_iso_priv.hpp"
#include "coefficient.hpp"
#include "electromag_integ.cpp"
#include "miso_input.cpp"
#include "iso_fixture.hpp"
#include "face_fixture.hpp"
#include "em_fixture.hpp"
static const char *DX = "the mesh sensitivity is the derivative of the functional in the node coordinates";
static const char *DU = "the element vector is the derivative of the functional in the state";
static const char *FN = "the functional is the quadrature of its integrand";
// rule for the integrals along the B-H curve
struct SegRule : mfem::IntegrationRule
{
   SegRule() : mfem::IntegrationRule(2)
   {
      for (int i = 0; i < 2; ++i) { IntPoint(i).Set(vp_real("xs", i, 0.1, 0.9), 0.0, 0.0, vp_real("ws", i, 0.1, 1)); }
      vp_world.seg = this;
   }
   // integral of x nu(x) from 0 to B
   double energy(const MCoef &nu, const Iso &t, double B)
   {
      double r = 0.0;
      for (int i = 0; i < 2; ++i) { r += IntPoint(i).weight * IntPoint(i).x * B * nu.at(t, IntPoint(i).x * B); }
      return r * B;
   }
};
// the energy density of the B-H curve and its derivatives
VP_HARNESS(h_energy_density)
{
   const int D = 2;
   Rule r; SegRule s; PlainEl me(D); Iso t(me, D, "X"); vp_valid(t);
   MCoef nu("nu");
   double B[1] = { vp_real("B", 0, 0.1, 2) }, g[1], h[1];
   t.SetIntPoint(&r.IntPoint(0));
   vp_reach("energy");
   vp_eq("the energy density is the integral of x nu(x) up to the flux density", miso::calcMagneticEnergy(t, r.IntPoint(0), nu, B[0]), s.energy(nu, t, B[0]));
   vp_ieq("the energy density is integrated with a rule of degree 20", vp_world.segorder, 20);
   gradient([&](double *x) { return miso::calcMagneticEnergy(t, r.IntPoint(0), nu, x[0]); }, B, 1, g);
   vp_world.segorder = -1;
   vp_eq("the first derivative of the energy density is exact", miso::calcMagneticEnergyDot(t, r.IntPoint(0), nu, B[0]), g[0]);
   vp_ieq("the derivative uses the rule of the energy density", vp_world.segorder, 20);
   gradient([&](double *x) { return miso::calcMagneticEnergyDot(t, r.IntPoint(0), nu, x[0]); }, B, 1, h);
   vp_world.segorder = -1;
   vp_eq("the second derivative of the energy density is exact", miso::calcMagneticEnergyDoubleDot(t, r.IntPoint(0), nu, B[0]), h[0]);
   vp_ieq("the second derivative uses the rule of the energy density", vp_world.segorder, 20);
}
// det times the flux density at point q: curl of the potential (3D), gradient of its z component turned by a
// right angle (2D, same norm); the sole component of the curl (2D edge elements)
template <int D, bool ND, int N> struct Setup
{
   Rule r; SegRule s; PlainEl me; Iso t; El el; Field u; MCoef nu;
   Setup(bool quad) : me(D), t(me, D, "X"), el(D, N, 2, quad, ND), u((init(), &el), "u"), nu("nu") { vp_valid(t); nu.away = true; }
   void init() { if (ND) { el.arbitraryV(nullptr, "c"); } else { el.arbitrary(nullptr, "d"); } }
   double b(int q, int a) const { double v = 0.0; for (int j = 0; j < N; ++j) { v += u.el(j) * (ND ? vp_detcurl(el, t, q, j, a) : vp_adjgrad(el, t, q, j, a)); } return v; }
   double norm(int q) const { double v[3]; const int C = ND ? (D == 3 ? 3 : 1) : D; for (int a = 0; a < C; ++a) { v[a] = b(q, a); } return sqrt(vp_norm2(v, C)); }
   template <class In, class F> void functional(In &in, F density)
   {
      double v = 0.0;
      for (int q = 0; q < NQ; ++q) { v += r.w(q) * density(q, norm(q)); }
      vp_eq(FN, in.GetElementEnergy(el, t, u.el), v);
      vp_ieq("the quadrature is that of the element", vp_world.geom, el.GetGeomType());
   }
   template <class In> void state(In &in)
   {
      vp_world.order = -1;
      in.GetElementEnergy(el, t, u.el);
      const int o = vp_world.order; vp_world.order = -1;
      stateSens([&](Vector &v) { return in.GetElementEnergy(el, t, v); }, [&](Vector &v, Vector &e) { in.AssembleElementVector(el, t, v, e); }, u.el, DU);
      in.AssembleElementVector(el, t, u.el, tmp);
      vp_ieq("derivative and functional use the same quadrature order", vp_world.order, o);
   }
   template <class In, class S> void mesh(In &in, S &ms) { meshSens(t, [&]() { return in.GetElementEnergy(el, t, u.el); }, [&](Vector &m) { ms.AssembleRHSElementVect(me, t, m); }, DX); }
   Vector tmp;
};
template <int D, int K> static void energy(bool quad)
{
   Setup<D, D == 3, 2> f(quad);
   miso::MagneticEnergyIntegrator in(f.nu);
   miso::MagneticEnergyIntegratorMeshSens ms(f.u, in);
   // the derivatives of the norm exist away from zero, for the field as the space gives it
   Array<int> vd; Vector el0 = f.u.el; DofTransformation *dt = f.u.FESpace()->GetElementVDofs(f.t.ElementNo, vd);
   if (K == 1) { f.u.GetSubVector(vd, f.u.el); if (dt) { dt->InvTransformPrimal(f.u.el); } }
   for (int q = 0; q < NQ; ++q) { vp_assume(f.norm(q) > 0.05); }
   f.u.el = el0;
   vp_reach("energy");
   if (K == 0)
   {
      f.functional(in, [&](int q, double b) { return f.t.det(q) * f.s.energy(f.nu, f.t, b / f.t.det(q)); });
      f.state(in);
   }
   else { f.mesh(in, ms); }
}
VP_HARNESS(h_energy_2) { energy<2, 0>(false); }
VP_HARNESS(h_energy_quad) { energy<2, 0>(true); }
VP_HARNESS(h_energy_3) { energy<3, 0>(false); }
VP_HARNESS(h_energy_mesh_2) { energy<2, 1>(false); }
VP_HARNESS(h_energy_mesh_quad) { energy<2, 1>(true); }
VP_HARNESS(h_energy_mesh_3) { energy<3, 1>(false); }
// where the field vanishes so do the energy and its derivatives
template <int D> static void zeroEnergy()
{
   Setup<D, D == 3, 2> f(false);
   ((Vector &)f.u) = 0.0; f.u.el = 0.0; f.nu.away = false;
   miso::MagneticEnergyIntegrator in(f.nu);
   miso::MagneticEnergyIntegratorMeshSens ms(f.u, in);
   vp_reach("zero");
   vp_eq(FN, in.GetElementEnergy(f.el, f.t, f.u.el), 0.0);
   Vector e, m;
   vp_twice(e, [&](auto &vp_o) { in.AssembleElementVector(f.el, f.t, f.u.el, vp_o); });
   vp_twice(m, [&](auto &vp_o) { ms.AssembleRHSElementVect(f.me, f.t, vp_o); });
   vp_true("one sensitivity per degree of freedom and node coordinate", e.Size() == 2 && m.Size() == D * D);
   for (int i = 0; i < 2; ++i) { vp_eq(DU, e(i), 0.0); }
   for (int i = 0; i < D * D; ++i) { vp_eq(DX, m(i), 0.0); }
}
VP_HARNESS(h_zero_energy_2) { zeroEnergy<2>(); }
VP_HARNESS(h_zero_energy_3) { zeroEnergy<3>(); }
// |b|, |b|^2, nu(det |b|) |b| (without the measure), nu(|b|)
template <int D, int K> static void norms(bool quad)
{
   Setup<D, true, 2> f(quad);
   vp_reach("norms");
   miso::BNormIntegrator bn; miso::BNormSquaredIntegrator b2; miso::nuBNormIntegrator nb(&f.nu); miso::nuFuncIntegrator nf(&f.u, &f.nu);
   if (K == 0)
   {
      for (int q = 0; q < NQ; ++q) { vp_assume(f.norm(q) > 0.05); }
      f.functional(bn, [&](int q, double b) { return b; });
      f.state(bn);
      f.functional(b2, [&](int q, double b) { return b * b / f.t.det(q); });
   }
   if (K == 1) { f.functional(nb, [&](int q, double b) { return f.nu.at(f.t, b) * b / f.t.det(q); }); f.state(nb); }
   if (K == 2) { f.functional(nf, [&](int q, double b) { return f.nu.at(f.t, b / f.t.det(q)) / f.t.det(q); }); }
   if (D == 3)
   {
      if (K == 0) { miso::BNormdJdx ms(f.u); f.mesh(bn, ms); }
      if (K == 1) { miso::nuBNormdJdx ms(f.u, &f.nu); f.mesh(nb, ms); }
      if (K == 2) { f.mesh(nf, nf); }
   }
}
VP_HARNESS(h_bnorm_2) { norms<2, 0>(false); }
VP_HARNESS(h_bnorm_3) { norms<3, 0>(true); }
VP_HARNESS(h_nubnorm_2) { norms<2, 1>(true); }
VP_HARNESS(h_nubnorm_3) { norms<3, 1>(false); }
VP_HARNESS(h_nufunc_2) { norms<2, 2>(false); }
VP_HARNESS(h_nufunc_3) { norms<3, 2>(true); }
