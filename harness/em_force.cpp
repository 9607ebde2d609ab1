// VP-ODL
// VP-DEFS -Doverride=
// Force integrator of electromag_integ.cpp: the virtual-work force is minus the derivative of the
// magnetic energy in the direction of the virtual displacement.
#include "std_model.hpp"
#include "mfem_iso_model.hpp"
#include <list>
#include "mfem_iso_priv.hpp"
#include "coefficient.hpp"
#include "electromag_integ.cpp"
#include "miso_input.cpp"
#include "iso_fixture.hpp"
#include "face_fixture.hpp"
#include "em_fixture.hpp"
static const char *VW = "the force is minus the derivative of the magnetic energy along the virtual displacement";
static const char *DX = "the mesh sensitivity is the derivative of the force in the node coordinates";
static const char *DU = "the element vector is the derivative of the force in the state";
template <int D, int M = 2> struct Setup
{
   enum { N = D == 2 ? M : 1 };
   Rule r; PlainEl me; Iso t; El el; Field u, v; MCoef nu;
   Setup(bool quad) : me(D), t(me, D, "X"), el(D, N, 2, quad, D == 3), u((init(), &el), "u"), v(&me, "v", false, -1, 1, D), nu("nu")
   { vp_valid(t); }
   // 3D: reference curls in one coordinate plane at each point (the mapping, which is arbitrary, turns them)
   void init() { if (D == 3) { el.arbitraryV(nullptr, "c"); if (M == 1) { el.c[0][0][2] = el.c[1][0][0] = 0.0; } } else { el.arbitrary(nullptr, "d"); } }
   double norm(int q, const Vector &x) const
   {
      double b[3];
      for (int a = 0; a < D; ++a) { b[a] = 0.0; for (int j = 0; j < N; ++j) { b[a] += x(j) * (D == 3 ? vp_detcurl(el, t, q, j, a) : vp_adjgrad(el, t, q, j, a)); } }
      return sqrt(vp_norm2(b, D));
   }
   // the field is away from zero, for the state as given and as the space gives it; the displacement moves something
   void away()
   {
      Array<int> vd; Vector x; DofTransformation *dt = u.FESpace()->GetElementVDofs(t.ElementNo, vd);
      u.GetSubVector(vd, x); if (dt) { dt->InvTransformPrimal(x); }
      for (int q = 0; q < NQ; ++q) { vp_assume(norm(q, u.el) > 0.05); vp_assume(norm(q, x) > 0.05); }
      v.FESpace()->GetElementVDofs(t.ElementNo, vd); v.GetSubVector(vd, x);
      vp_assume(x.Normlinf() >= 1e-14);
   }
};
struct SegRule : mfem::IntegrationRule
{
   SegRule() : mfem::IntegrationRule(1) { IntPoint(0).Set(vp_real("xs", 0, 0.1, 0.9), 0.0, 0.0, vp_real("ws", 0, 0.1, 1)); vp_world.seg = this; }
};
template <int D, int K> static void force(bool quad, int lo = 0, int hi = 16)
{
   Setup<D, K == 1 || (K == 2 && D == 3) ? 1 : 2> f(quad); SegRule s;
   f.away();
   miso::ForceIntegrator3 in(f.nu, f.v);
   miso::MagneticEnergyIntegrator en(f.nu);
   auto value = [&]() { return in.GetElementEnergy(f.el, f.t, f.u.el); };
   vp_reach("force");
   if (K == 0)
   {
      double g[16], w = 0.0;
      const int n = f.t.dofs();
      gradient([&](double *x) { f.t.put(x); return en.GetElementEnergy(f.el, f.t, f.u.el); }, f.t.X, n, g);
      f.t.put(f.t.X);
      const int o = vp_world.order, ge = vp_world.geom; vp_world.order = -1;
      double F = value();
      vp_ieq("force and energy use the same quadrature order", vp_world.order, o);
      vp_ieq("force and energy use the same quadrature geometry", vp_world.geom, ge);
      for (int i = 0; i < n; ++i) { w -= g[i] * f.v.el(i); }
      vp_eq(VW, F, w);
   }
   if (K == 1)
   {
      vp_world.order = -1; value(); const int o = vp_world.order; vp_world.order = -1;
      stateSens([&](Vector &x) { return in.GetElementEnergy(f.el, f.t, x); }, [&](Vector &x, Vector &e) { in.AssembleElementVector(f.el, f.t, x, e); }, f.u.el, DU);
      Vector e; in.AssembleElementVector(f.el, f.t, f.u.el, e);
      vp_ieq("derivative and force use the same quadrature order", vp_world.order, o);
   }
   if (K == 2)
   {
      miso::ForceIntegratorMeshSens3 ms(f.u, in);
      meshSens(f.t, value, [&](Vector &m) { ms.AssembleRHSElementVect(f.me, f.t, m); }, DX, lo, hi);
   }
}
VP_HARNESS(h_force_2) { force<2, 0>(false); }
VP_HARNESS(h_force_3) { force<3, 0>(true); }
VP_HARNESS(h_force_state_2) { force<2, 1>(true); }
VP_HARNESS(h_force_state_3) { force<3, 1>(false); }
VP_HARNESS(h_force_mesh_2) { force<2, 2>(false); }
VP_HARNESS(h_force_mesh_3a) { force<3, 2>(true, 0, 3); }
VP_HARNESS(h_force_mesh_3b) { force<3, 2>(true, 3, 6); }
VP_HARNESS(h_force_mesh_3c) { force<3, 2>(true, 6, 9); }
// no force, no derivatives: in the regions left out, without displacement, and where the field vanishes
template <int D> static void none(int k)
{
   Setup<D> f(false); SegRule s;
   if (k == 0) { f.away(); f.t.Attribute = 4; }
   if (k == 1) { ((Vector &)f.v) = 0.0; }
   if (k == 2)
   {
      ((Vector &)f.u) = 0.0; f.u.el = 0.0;
      Array<int> vd; Vector x; f.v.FESpace()->GetElementVDofs(f.t.ElementNo, vd); f.v.GetSubVector(vd, x);
      vp_assume(x.Normlinf() >= 1e-14);
   }
   miso::ForceIntegrator3 in(f.nu, f.v, std::unordered_set<int>{ 4, 2 });
   miso::ForceIntegratorMeshSens3 ms(f.u, in);
   vp_reach("none");
   Vector e, m;
   vp_eq("no force", in.GetElementEnergy(f.el, f.t, f.u.el), 0.0);
   vp_twice(e, [&](auto &vp_o) { in.AssembleElementVector(f.el, f.t, f.u.el, vp_o); });
   vp_twice(m, [&](auto &vp_o) { ms.AssembleRHSElementVect(f.me, f.t, vp_o); });
   vp_true("one sensitivity per degree of freedom and node coordinate", e.Size() == Setup<D>::N && m.Size() == D * D);
   for (int i = 0; i < Setup<D>::N; ++i) { vp_eq(DU, e(i), 0.0); }
   for (int i = 0; i < D * D; ++i) { vp_eq(DX, m(i), 0.0); }
}
VP_HARNESS(h_force_region_2) { none<2>(0); }
VP_HARNESS(h_force_region_3) { none<3>(0); }
VP_HARNESS(h_force_still_2) { none<2>(1); }
VP_HARNESS(h_force_still_3) { none<3>(1); }
VP_HARNESS(h_force_zero_2) { none<2>(2); }
VP_HARNESS(h_force_zero_3) { none<3>(2); }
