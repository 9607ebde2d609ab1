// VP-ODL
// VP-DEFS -Doverride=
// Loss integrators of electromag_integ.cpp: DC, AC, Steinmetz and CAL2 losses, the heat
// sources built from them, the demagnetisation constraint, and all their sensitivities.
#include "std_model.hpp"
#include "mfem_iso_model.hpp"
#include <list>
#include "mfem_iso_priv.hpp"
#include "coefficient.hpp"
#include "electromag_integ.cpp"
#include "miso_input.cpp"
#include "iso_fixture.hpp"
#include "face_fixture.hpp"
#include "em_fixture.hpp"
static const char *DX = "the mesh sensitivity is the derivative in the node coordinates";
static const char *DF = "the sensitivity is the derivative in the field";
static const char *DS = "the sensitivity is the derivative in the named parameter";
static const char *FN = "the functional is the quadrature of its integrand";
static const char *RQ = "the heat source is the quadrature of its density and each shape function";
enum { N1 = 3, N2 = 2 };
static const double PI = M_PI;
// material models of two and three states that do not vary within an element
template <int M> static SArg vp_estate(const char *n, mfem::ElementTransformation &T, const IntegrationPoint &ip, const double *s)
{
   vp_true("the transformation stands at the point where the coefficient is evaluated", &T.GetIntPoint() == &ip);
   SArg a(n); a << (double)T.ElementNo;
   for (int k = 0; k < M; ++k) { a << s[k]; }
   return a;
}
struct Coef3 : miso::ThreeStateCoefficient
{
   const char *n;
   Coef3(const char *name) : n(name) { }
   using miso::ThreeStateCoefficient::Eval;
   static SArg arg(const char *n, mfem::ElementTransformation &T, const IntegrationPoint &ip, double a, double b, double c) { double s[3] = { a, b, c }; return vp_estate<3>(n, T, ip, s); }
   double Eval(mfem::ElementTransformation &T, const IntegrationPoint &ip, double a, double b, double c) override { return arg(n, T, ip, a, b, c).v(); }
   double EvalDerivS1(mfem::ElementTransformation &T, const IntegrationPoint &ip, double a, double b, double c) override { return arg(n, T, ip, a, b, c).d(1); }
   double EvalDerivS2(mfem::ElementTransformation &T, const IntegrationPoint &ip, double a, double b, double c) override { return arg(n, T, ip, a, b, c).d(2); }
   double EvalDerivS3(mfem::ElementTransformation &T, const IntegrationPoint &ip, double a, double b, double c) override { return arg(n, T, ip, a, b, c).d(3); }
   void EvalRevDiff(double, mfem::ElementTransformation &, const IntegrationPoint &, double, double, double, DenseMatrix &) override { }
   double at(const Iso &t, double a, double b, double c) const { SArg x(n); x << (double)t.ElementNo; x << a; x << b; x << c; return x.v(); }
};
struct Coef2 : miso::TwoStateCoefficient
{
   const char *n;
   Coef2(const char *name) : n(name) { }
   using miso::TwoStateCoefficient::Eval;
   double Eval(mfem::ElementTransformation &T, const IntegrationPoint &ip, double a, double b) override { double s[2] = { a, b }; return vp_estate<2>(n, T, ip, s).v(); }
   double EvalDerivS1(mfem::ElementTransformation &T, const IntegrationPoint &ip, double a, double b) override { double s[2] = { a, b }; return vp_estate<2>(n, T, ip, s).d(1); }
   double EvalDerivS2(mfem::ElementTransformation &T, const IntegrationPoint &ip, double a, double b) override { double s[2] = { a, b }; return vp_estate<2>(n, T, ip, s).d(2); }
   void EvalRevDiff(double, mfem::ElementTransformation &, const IntegrationPoint &, double, double, DenseMatrix &) override { }
   double at(const Iso &t, double a, double b) const { SArg x(n); x << (double)t.ElementNo; x << a; x << b; return x.v(); }
};
// mesh, flux (or state) element, temperature element and their fields
template <int D> struct Loss
{
   Rule r; MeshEl me; Iso t; El fe, te; Field B, T, psi;
   Loss(bool quad) : me(D, "mN", nullptr, quad), t(me, D, "X"), fe(D, N1, 2, quad), te(D, N2, 3, quad),
      B((fe.arbitrary("N", nullptr), &fe), "b", true, 0.2, 1), T((te.arbitrary("M", nullptr), &te), "t", true, 0.2, 1), psi(&te, "p") { vp_valid(t); }
   double b(int q) const { double v = 0.0; for (int j = 0; j < N1; ++j) { v += B.el(j) * fe.s[q][j]; } return v; }
   double temp(int q) const { double v = 0.0; for (int j = 0; j < N2; ++j) { v += T.el(j) * te.s[q][j]; } return v; }
   static void put(Field &f, const double *y) { const int n = f.el.Size(); for (int i = 0; i < n; ++i) { f((i + 1) % n) = (i == 0 ? -y[i] : y[i]) / DofTr::t(i); } }
   // the quadrature of value(), watched
   struct Watch { int o, g; Watch() { o = vp_world.order; g = vp_world.geom; vp_world.order = -1; vp_world.geom = -1; } };
   template <class V, class S> void compare(V value, S sens)
   {
      vp_world.order = -1; value();
      const int o = vp_world.order, g = vp_world.geom; vp_world.order = -1;
      sens();
      vp_ieq("sensitivity and value use the same quadrature order", vp_world.order, o);
      vp_ieq("sensitivity and value use the same quadrature geometry", vp_world.geom, g);
   }
   template <class V, class S> void field(Field &f, V value, S sens)
   {
      const int n = f.el.Size();
      double g[4]; Vector x(f.el), m;
      gradient([&](double *y) { put(f, y); return value(); }, x.GetData(), n, g);
      put(f, x.GetData());
      compare(value, [&]() { vp_twice(m, sens); });
      vp_ieq("one sensitivity per degree of freedom of the field", m.Size(), n);
      for (int i = 0; i < n; ++i) { vp_eq(DF, m(i), g[i]); }
   }
   template <class In, class V, class S> void scalar(In &in, const char *key, double x, V value, S sens)
   {
      double y[1] = { x }, g[1], s = 0.0;
      auto set = [&](double v) { miso::MISOInputs i; i[key] = v; setInputs(in, i); };
      gradient([&](double *z) { set(z[0]); return value(); }, y, 1, g);
      set(x);
      compare(value, [&]() { s = sens(); });
      vp_eq(DS, s, g[0]);
   }
   template <class L> double source(L &in) { Vector e; in.AssembleRHSElementVect(te, t, e); return e * psi.el; }
   template <class L, class F> void density(L &in, F loss)
   {
      Vector e;
      vp_twice(e, [&](auto &vp_o) { in.AssembleRHSElementVect(te, t, vp_o); });
      vp_ieq("one source per degree of freedom", e.Size(), N2);
      for (int i = 0; i < N2; ++i) { double v = 0.0; for (int q = 0; q < NQ; ++q) { v += r.w(q) * t.det(q) * loss(q) * te.s[q][i]; } vp_eq(RQ, e(i), v); }
   }
   template <class In, class F> void functional(In &in, const Vector &u, F loss)
   {
      double v = 0.0;
      for (int q = 0; q < NQ; ++q) { v += r.w(q) * t.det(q) * loss(q); }
      vp_eq(FN, in.GetElementEnergy(fe, t, u), v);
   }
};
static double par(const char *n, double lo = 0.5, double hi = 2) { return vp_real(n, 0, lo, hi); }
// ---- DC losses
template <int D, int K> static void dc(bool quad)
{
   Loss<D> f(quad);
   SCoef sg("sigma");
   miso::DCLossFunctionalIntegrator in(sg, f.T);
   for (int q = 0; q < NQ; ++q) { vp_assume(sg.at(f.t, q, f.temp(q)) > 0.1); }
   auto value = [&]() { return in.GetElementEnergy(f.fe, f.t, f.B.el); };
   vp_reach("dc");
   if (K == 0)
   {
      f.functional(in, f.B.el, [&](int q) { return 1.0 / sg.at(f.t, q, f.temp(q)); });
      miso::DCLossFunctionalIntegratorTemperatureSens ts(f.B, in);
      f.field(f.T, value, [&](Vector &m) { ts.AssembleRHSElementVect(f.te, f.t, m); });
   }
   else
   {
      miso::DCLossFunctionalIntegratorMeshSens ms(f.B, in);
      meshSens(f.t, value, [&](Vector &m) { ms.AssembleRHSElementVect(f.me, f.t, m); }, DX);
   }
}
VP_HARNESS(h_dc_2) { dc<2, 0>(false); }
VP_HARNESS(h_dc_3) { dc<3, 0>(true); }
VP_HARNESS(h_dc_mesh_2) { dc<2, 1>(true); }
VP_HARNESS(h_dc_mesh_3) { dc<3, 1>(false); }
// heat of the DC losses: I^2 R sqrt(2) spread over the windings
template <int D, int K> static void dcHeat(bool quad)
{
   Loss<D> f(quad);
   MCoef sg("sigma");
   for (int q = 0; q < NQ; ++q) { vp_assume(sg.at(f.t, f.temp(q)) > 0.1); }
   miso::DCLossDistributionIntegrator in(sg, f.T);
   const double len = par("len"), cur = par("cur"), rad = par("rad"), str = par("str"), stk = par("stk"), vol = par("vol");
   vp_assume(rad > 0.1); vp_assume(str > 0.1); vp_assume(stk > 0.1); vp_assume(vol > 0.1);
   { miso::MISOInputs i; i["wire_length"] = len; i["rms_current"] = cur; i["strand_radius"] = rad; i["strands_in_hand"] = str; i["stack_length"] = stk; i["winding_volume"] = vol; setInputs(in, i); }
   auto value = [&]() { return f.source(in); };
   vp_reach("dcheat");
   if (K == 0)
   {
      f.density(in, [&](int q) { return cur * cur * len / (PI * rad * rad * str * sg.at(f.t, f.temp(q))) * sqrt(2.0) / (vol * stk); });
      miso::DCLossDistributionIntegratorTemperatureRevSens ts(f.psi, in);
      f.field(f.T, value, [&](Vector &m) { ts.AssembleRHSElementVect(f.te, f.t, m); });
      miso::DCLossDistributionIntegratorStrandRadiusRevSens s1(f.psi, in);
      miso::DCLossDistributionIntegratorWireLengthRevSens s2(f.psi, in);
      miso::DCLossDistributionIntegratorStrandsInHandRevSens s3(f.psi, in);
      miso::DCLossDistributionIntegratorCurrentRevSens s4(f.psi, in);
      miso::DCLossDistributionIntegratorStackLengthRevSens s5(f.psi, in);
      miso::DCLossDistributionIntegratorWindingVolumeRevSens s6(f.psi, in);
      f.scalar(in, "strand_radius", rad, value, [&]() { return s1.GetElementEnergy(f.te, f.t, f.T.el); });
      f.scalar(in, "wire_length", len, value, [&]() { return s2.GetElementEnergy(f.te, f.t, f.T.el); });
      f.scalar(in, "strands_in_hand", str, value, [&]() { return s3.GetElementEnergy(f.te, f.t, f.T.el); });
      f.scalar(in, "rms_current", cur, value, [&]() { return s4.GetElementEnergy(f.te, f.t, f.T.el); });
      f.scalar(in, "stack_length", stk, value, [&]() { return s5.GetElementEnergy(f.te, f.t, f.T.el); });
      f.scalar(in, "winding_volume", vol, value, [&]() { return s6.GetElementEnergy(f.te, f.t, f.T.el); });
   }
   else
   {
      miso::DCLossDistributionIntegratorMeshRevSens ms(f.psi, in);
      meshSens(f.t, value, [&](Vector &m) { ms.AssembleRHSElementVect(f.me, f.t, m); }, DX);
   }
}
VP_HARNESS(h_dcheat_2) { dcHeat<2, 0>(false); }
VP_HARNESS(h_dcheat_quad) { dcHeat<2, 0>(true); }
VP_HARNESS(h_dcheat_mesh_2) { dcHeat<2, 1>(false); }
VP_HARNESS(h_dcheat_mesh_3) { dcHeat<3, 1>(true); }
// ---- AC losses: sigma(T) b^2
template <int D, int K> static void ac(bool quad)
{
   Loss<D> f(quad);
   SCoef sg("sigma");
   miso::ACLossFunctionalIntegrator in(sg, f.T);
   vp_reach("ac");
   if (K == 0)
   {
      f.functional(in, f.B.el, [&](int q) { return sg.at(f.t, q, f.temp(q)) * f.b(q) * f.b(q); });
      miso::ACLossFunctionalIntegratorTemperatureSens ts(f.B, in);
      miso::ACLossFunctionalIntegratorPeakFluxSens bs(f.B, in);
      f.field(f.T, [&]() { return in.GetElementEnergy(f.fe, f.t, f.B.el); }, [&](Vector &m) { ts.AssembleRHSElementVect(f.te, f.t, m); });
      Vector x(f.B.el);
      f.field(f.B, [&]() { Vector u(N1); for (int i = 0; i < N1; ++i) { double v = f.B((i + 1) % N1) * DofTr::t(i); u(i) = i == 0 ? -v : v; } return in.GetElementEnergy(f.fe, f.t, u); }, [&](Vector &m) { bs.AssembleRHSElementVect(f.fe, f.t, m); });
   }
   else
   {
      miso::ACLossFunctionalIntegratorMeshSens ms(f.B, in);
      meshSens(f.t, [&]() { return in.GetElementEnergy(f.fe, f.t, f.B.el); }, [&](Vector &m) { ms.AssembleRHSElementVect(f.me, f.t, m); }, DX);
   }
}
VP_HARNESS(h_ac_2) { ac<2, 0>(false); }
VP_HARNESS(h_ac_3) { ac<3, 0>(true); }
VP_HARNESS(h_ac_mesh_2) { ac<2, 1>(true); }
VP_HARNESS(h_ac_mesh_3) { ac<3, 1>(false); }
template <int D, int K> static void acHeat(bool quad)
{
   Loss<D> f(quad);
   MCoef sg("sigma");
   miso::ACLossDistributionIntegrator in(f.B, f.T, sg);
   const double frq = par("frq"), rad = par("rad"), str = par("str"), trn = par("trn"), slt = par("slt"), vol = par("vol");
   vp_assume(frq > 0.1); vp_assume(rad > 0.1); vp_assume(str > 0.1); vp_assume(trn > 0.1); vp_assume(slt > 0.1); vp_assume(vol > 0.1);
   { miso::MISOInputs i; i["frequency"] = frq; i["strand_radius"] = rad; i["strands_in_hand"] = str; i["num_turns"] = trn; i["num_slots"] = slt; i["winding_volume"] = vol; setInputs(in, i); }
   auto value = [&]() { return f.source(in); };
   vp_reach("acheat");
   if (K == 0)
   {
      f.density(in, [&](int q) { double wb = 2.0 * PI * frq * f.b(q); return PI * rad * rad * rad * rad * wb * wb * sg.at(f.t, f.temp(q)) / 8.0 * 2.0 * str * trn * slt / vol; });
      miso::ACLossDistributionIntegratorTemperatureRevSens ts(f.psi, in);
      miso::ACLossDistributionIntegratorPeakFluxRevSens bs(f.psi, in);
      f.field(f.T, value, [&](Vector &m) { ts.AssembleRHSElementVect(f.te, f.t, m); });
      f.field(f.B, value, [&](Vector &m) { bs.AssembleRHSElementVect(f.fe, f.t, m); });
      miso::ACLossDistributionIntegratorFrequencyRevSens s1(f.psi, in);
      miso::ACLossDistributionIntegratorStrandRadiusRevSens s2(f.psi, in);
      miso::ACLossDistributionIntegratorStrandsInHandRevSens s3(f.psi, in);
      miso::ACLossDistributionIntegratorNumTurnsRevSens s4(f.psi, in);
      miso::ACLossDistributionIntegratorNumSlotsRevSens s5(f.psi, in);
      miso::ACLossDistributionIntegratorWindingVolumeRevSens s6(f.psi, in);
      f.scalar(in, "frequency", frq, value, [&]() { return s1.GetElementEnergy(f.te, f.t, f.T.el); });
      f.scalar(in, "strand_radius", rad, value, [&]() { return s2.GetElementEnergy(f.te, f.t, f.T.el); });
      f.scalar(in, "strands_in_hand", str, value, [&]() { return s3.GetElementEnergy(f.te, f.t, f.T.el); });
      f.scalar(in, "num_turns", trn, value, [&]() { return s4.GetElementEnergy(f.te, f.t, f.T.el); });
      f.scalar(in, "num_slots", slt, value, [&]() { return s5.GetElementEnergy(f.te, f.t, f.T.el); });
      f.scalar(in, "winding_volume", vol, value, [&]() { return s6.GetElementEnergy(f.te, f.t, f.T.el); });
   }
   else
   {
      miso::ACLossDistributionIntegratorMeshRevSens ms(f.psi, in);
      meshSens(f.t, value, [&](Vector &m) { ms.AssembleRHSElementVect(f.me, f.t, m); }, DX);
   }
}
VP_HARNESS(h_acheat_2) { acHeat<2, 0>(false); }
VP_HARNESS(h_acheat_quad) { acHeat<2, 0>(true); }
VP_HARNESS(h_acheat_mesh_2) { acHeat<2, 1>(false); }
VP_HARNESS(h_acheat_mesh_3) { acHeat<3, 1>(true); }
// ---- Steinmetz core losses: rho k_s f^alpha B^beta
template <int D, int K> static void steinmetz(bool quad)
{
   Loss<D> f(quad);
   Coef rho("rho"), ks("ks"), al("al"), be("be");
   miso::SteinmetzLossIntegrator in(rho, ks, al, be, K == 1 ? "core" : "");
   miso::SteinmetzLossDistributionIntegrator dist(rho, ks, al, be, K == 1 ? "core" : "");
   const char *key = K == 1 ? "max_flux_magnitude:core" : "max_flux_magnitude";
   const double frq = par("frq"), bm = par("bm");
   vp_assume(frq > 0.1); vp_assume(bm > 0.1);
   { miso::MISOInputs i; i["frequency"] = frq; i[key] = bm; setInputs(in, i); setInputs(dist, i); }
   auto value = [&]() { return in.GetElementEnergy(f.fe, f.t, f.B.el); };
   auto loss = [&](int q) { return rho.at(f.t, q) * ks.at(f.t, q) * pow(frq, al.at(f.t, q)) * pow(bm, be.at(f.t, q)); };
   vp_reach("steinmetz");
   if (K < 2)
   {
      f.functional(in, f.B.el, loss);
      f.density(dist, loss);
      miso::SteinmetzLossIntegratorFreqSens s1(in);
      miso::SteinmetzLossIntegratorMaxFluxSens s2(in);
      f.scalar(in, "frequency", frq, value, [&]() { return s1.GetElementEnergy(f.fe, f.t, f.B.el); });
      f.scalar(in, key, bm, value, [&]() { return s2.GetElementEnergy(f.fe, f.t, f.B.el); });
   }
   else
   {
      miso::SteinmetzLossIntegratorMeshSens ms(f.B, in);
      meshSens(f.t, value, [&](Vector &m) { ms.AssembleRHSElementVect(f.me, f.t, m); }, DX);
   }
}
VP_HARNESS(h_steinmetz_2) { steinmetz<2, 0>(false); }
VP_HARNESS(h_steinmetz_named) { steinmetz<3, 1>(true); }
VP_HARNESS(h_steinmetz_mesh_2) { steinmetz<2, 2>(true); }
VP_HARNESS(h_steinmetz_mesh_3) { steinmetz<3, 2>(false); }
// ---- CAL2 core losses: rho (kh(T, f, B) f B^2 + ke(T, f, B) f^2 B^2)
template <int D, int K> static void cal2(bool quad)
{
   Loss<D> f(quad);
   BCoef rho("rho"); Coef3 kh("kh"), ke("ke");
   miso::CAL2CoreLossIntegrator in(rho, kh, ke, f.B, f.T);
   miso::CAL2CoreLossDistributionIntegrator dist(rho, kh, ke, f.B, f.T);
   const double frq = par("frq");
   { miso::MISOInputs i; i["frequency"] = frq; setInputs(in, i); setInputs(dist, i); }
   auto value = [&]() { return in.GetElementEnergy(f.fe, f.t, f.B.el); };
   auto heat = [&]() { return f.source(dist); };
   auto loss = [&](int q) { double b = f.b(q), T = f.temp(q); return rho.at(f.t.ElementNo) * (kh.at(f.t, T, frq, b) * frq * b * b + ke.at(f.t, T, frq, b) * frq * frq * b * b); };
   vp_reach("cal2");
   if (K == 0)
   {
      f.functional(in, f.B.el, loss);
      miso::CAL2CoreLossIntegratorFreqSens s1(in);
      miso::CAL2CoreLossIntegratorPeakFluxSens bs(in);
      miso::CAL2CoreLossIntegratorTemperatureSens ts(in);
      f.scalar(in, "frequency", frq, value, [&]() { return s1.GetElementEnergy(f.fe, f.t, f.B.el); });
      f.field(f.B, value, [&](Vector &m) { bs.AssembleRHSElementVect(f.fe, f.t, m); });
      f.field(f.T, value, [&](Vector &m) { ts.AssembleRHSElementVect(f.te, f.t, m); });
   }
   if (K == 1)
   {
      miso::CAL2CoreLossIntegratorMeshSens ms(in);
      meshSens(f.t, value, [&](Vector &m) { ms.AssembleRHSElementVect(f.me, f.t, m); }, DX);
   }
   if (K == 2)
   {
      f.density(dist, loss);
      miso::CAL2CoreLossDistributionIntegratorFrequencyRevSens s1(f.psi, dist);
      miso::CAL2CoreLossDistributionIntegratorPeakFluxRevSens bs(f.psi, dist);
      miso::CAL2CoreLossDistributionIntegratorTemperatureRevSens ts(f.psi, dist);
      f.scalar(dist, "frequency", frq, heat, [&]() { return s1.GetElementEnergy(f.te, f.t, f.T.el); });
      f.field(f.B, heat, [&](Vector &m) { bs.AssembleRHSElementVect(f.fe, f.t, m); });
      f.field(f.T, heat, [&](Vector &m) { ts.AssembleRHSElementVect(f.te, f.t, m); });
   }
   if (K == 3)
   {
      miso::CAL2CoreLossDistributionIntegratorMeshRevSens ms(f.psi, dist);
      meshSens(f.t, heat, [&](Vector &m) { ms.AssembleRHSElementVect(f.me, f.t, m); }, DX);
   }
}
VP_HARNESS(h_cal2_2) { cal2<2, 0>(false); }
VP_HARNESS(h_cal2_3) { cal2<3, 0>(true); }
VP_HARNESS(h_cal2_mesh_2) { cal2<2, 1>(true); }
VP_HARNESS(h_cal2_mesh_3) { cal2<3, 1>(false); }
VP_HARNESS(h_cal2heat_2) { cal2<2, 2>(false); }
VP_HARNESS(h_cal2heat_quad) { cal2<2, 2>(true); }
VP_HARNESS(h_cal2heat_mesh_2) { cal2<2, 3>(true); }
VP_HARNESS(h_cal2heat_mesh_3) { cal2<3, 3>(false); }
// ---- demagnetisation constraint
template <int D> static void demag(bool quad, bool with)
{
   Loss<D> f(quad);
   Coef2 c("c");
   miso::PMDemagIntegrator in(c, with ? &f.T : nullptr);
   auto density = [&](int q) { return c.at(f.t, f.b(q), with ? f.temp(q) : 100 + 273.15); };
   vp_reach("demag");
   f.functional(in, f.B.el, [&](int q) { return -density(q); });
   Vector e;
   vp_twice(e, [&](auto &vp_o) { in.AssembleElementVector(f.fe, f.t, f.B.el, vp_o); });
   vp_ieq("one entry per degree of freedom", e.Size(), N1);
   for (int i = 0; i < N1; ++i) { double v = 0.0; for (int q = 0; q < NQ; ++q) { v += f.r.w(q) * f.t.det(q) * density(q) * f.fe.s[q][i]; } vp_eq("the distribution is the quadrature of the constraint and each shape function", e(i), v); }
}
VP_HARNESS(h_demag_2) { demag<2>(false, true); }
VP_HARNESS(h_demag_3) { demag<3>(true, true); }
VP_HARNESS(h_demag_plain) { demag<2>(true, false); }
