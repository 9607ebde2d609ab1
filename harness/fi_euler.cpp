// VP-DEFS -Doverride=
// VP-OPT split = .
// VP-USE ^h_conserve_fun : _ZN4miso16calcBoundaryFluxIdLi2EEEvPKT_S3_S3_PS1_S4_ => contract_bflux2
// VP-USE ^h_conserve_fun : _ZN4miso16calcBoundaryFluxIdLi3EEEvPKT_S3_S3_PS1_S4_ => contract_bflux3
// VP-USE ^h_ : _ZN4miso6logavgIdEET_RKS1_S3_ => contract_logavg
// VP-USE ^h_ : _ZN4miso6logavgIN5adept7adoubleEEET_RKS3_S5_ => contract_logavg_ad
// Pointwise functions of the Euler integrators (euler_integ_def.hpp): the fluxes they
// integrate, the functionals, and the Jacobians obtained from them by differentiation.
#include "std_model.hpp"
#include "mfem_fe_model.hpp"
#include "mfem_iso_priv.hpp"
#include "sbp_fe.cpp"
#include "orthopoly.cpp"
#include "utils.cpp"
#include "miso_input.cpp"
#include "euler_integ.hpp"
#include "fi_fixture.hpp"

template <int dim> static void euler(bool wrtdir)
{
   adept::Stack st; miso::EulerIntegrator<dim> in(st);
   State<dim> q("q"); Dir<dim> dir("dir");
   Vector f(dim + 2), g(dim + 2);
   in.calcFlux(dir, q, f); miso::calcEulerFlux<double, dim>(dir.GetData(), q.GetData(), g.GetData());
   same(FLUX, f, g);
   DenseMatrix J(dim + 2, wrtdir ? dim : dim + 2);
   if (wrtdir) { in.calcFluxJacDir(dir, q, J); jac(JDIR, dir, dim + 2, [&](Vector &o) { in.calcFlux(dir, q, o); }, J); }
   else { in.calcFluxJacState(dir, q, J); jac(JSTATE, q, dim + 2, [&](Vector &o) { in.calcFlux(dir, q, o); }, J); }
}
BOTH(euler, h_euler)
template <int dim, bool ev> static void ismailroe()
{
   adept::Stack st; miso::IsmailRoeIntegrator<dim, ev> in(st);
   State<dim, ev> a("qL"), b("qR"); int di = vp_choice("di", 0, dim - 1);
   Vector f(dim + 2), g(dim + 2);
   in.calcFlux(di, a, b, f);
   if (ev) { miso::calcIsmailRoeFluxUsingEntVars<double, dim>(di, a.GetData(), b.GetData(), g.GetData()); }
   else { miso::calcIsmailRoeFlux<double, dim>(di, a.GetData(), b.GetData(), g.GetData()); }
   same(FLUX, f, g);
   DenseMatrix L(dim + 2), R(dim + 2);
   in.calcFluxJacStates(di, a, b, L, R);
   jac(JLEFT, a, dim + 2, [&](Vector &o) { in.calcFlux(di, a, b, o); }, L);
   jac(JRIGHT, b, dim + 2, [&](Vector &o) { in.calcFlux(di, a, b, o); }, R);
}
VARS(ismailroe, h_ismailroe)
template <int dim, bool ev> static void convert()
{
   adept::Stack st; miso::EntStableLPSIntegrator<dim, ev> in(st); miso::MassIntegrator<dim, ev> ma(st);
   State<dim, ev> q("q"); Vector f(dim + 2), g(dim + 2);
   in.convertVars(q, f); miso::calcEntropyVars<double, dim, ev>(q.GetData(), g.GetData()); same("entropy variables of the state", f, g);
   DenseMatrix J(dim + 2); in.convertVarsJacState(q, J);
   jac("the Jacobian of the entropy variables is their derivative", q, dim + 2, [&](Vector &o) { in.convertVars(q, o); }, J);
   ma.convertVars(q, f); miso::calcConservativeVars<double, dim, ev>(q.GetData(), g.GetData()); same("conservative variables of the state", f, g);
   ma.convertVarsJacState(q, J);
   jac("the Jacobian of the conservative variables is their derivative", q, dim + 2, [&](Vector &o) { ma.convertVars(q, o); }, J);
   miso::EntropyIntegrator<dim, ev> en(st); Vector x(dim); x = 0.0;
   vp_eq("the entropy functional integrates the entropy of the state", en.calcVolFun(x, q), miso::entropy<double, dim, ev>(q.GetData()));
}
VARS(convert, h_convert)
template <int dim, bool ev> static void lps(int which)
{
   adept::Stack st; miso::EntStableLPSIntegrator<dim, ev> in(st);
   State<dim, ev> q("q"); Mat<dim> A("adjJ", dim, dim); Dir<dim + 2> v("v"); vp_assume(A.Det() != 0.0);
   Vector f(dim + 2), g(dim + 2);
   in.applyScaling(A, q, v, f);
   if (ev) { miso::applyLPSScalingUsingEntVars<double, dim>(A.GetData(), q.GetData(), v.GetData(), g.GetData()); }
   else { miso::applyLPSScaling<double, dim>(A.GetData(), q.GetData(), v.GetData(), g.GetData()); }
   same("the stabilisation is scaled as stated", f, g);
   auto fn = [&](Vector &o) { in.applyScaling(A, q, v, o); };
   if (which == 0) { DenseMatrix J(dim + 2); in.applyScalingJacState(A, q, v, J); jac("the scaling's Jacobian in the state is its derivative", q, dim + 2, fn, J); }
   if (which == 1) { DenseMatrix J(dim + 2, dim * dim); in.applyScalingJacAdjJ(A, q, v, J); jac("the scaling's Jacobian in the mapping is its derivative", A.v, dim + 2, fn, J); }
   if (which == 2) { DenseMatrix J(dim + 2); in.applyScalingJacV(A, q, J); jac("the scaling's Jacobian in the vector is its derivative", v, dim + 2, fn, J); }
}
template <int dim, bool ev> static void lps_state() { lps<dim, ev>(0); }
template <int dim, bool ev> static void lps_adj() { lps<dim, ev>(1); }
template <int dim, bool ev> static void lps_vec() { lps<dim, ev>(2); }
VARS(lps_state, h_lps_state)
VARS(lps_adj, h_lps_adj)
VARS(lps_vec, h_lps_vec)
// boundary fluxes: G is the flux the condition imposes
template <int dim, bool ev, class I, class G> static void bnd(I &in, bool wrtdir, State<dim, ev> &q, Dir<dim> &x, Dir<dim> &dir, G want, bool fun = true)
{
   Vector f(dim + 2), g(dim + 2), w(dim + 2);
   if (!wrtdir)
   {
      in.calcFlux(x, dir, q, f); want(x, dir, q, g); same(FLUX, f, g);
      miso::calcEntropyVars<double, dim, ev>(q.GetData(), w.GetData());
      if (fun) vp_eq("the boundary functional is the flux contracted with the entropy variables", in.calcBndryFun(x, dir, q), w * f);
   }
   DenseMatrix J(dim + 2, wrtdir ? dim : dim + 2);
   if (wrtdir) { in.calcFluxJacDir(x, dir, q, J); jac(JDIR, dir, dim + 2, [&](Vector &o) { in.calcFlux(x, dir, q, o); }, J); }
   else { in.calcFluxJacState(x, dir, q, J); jac(JSTATE, q, dim + 2, [&](Vector &o) { in.calcFlux(x, dir, q, o); }, J); }
}
template <int dim, bool ev> static void slip(bool d)
{
   adept::Stack st; miso::SlipWallBC<dim, ev> in(st, nullptr);
   State<dim, ev> q("q"); Dir<dim> x("x"), dir("dir");
   bnd<dim, ev>(in, d, q, x, dir, [](Vector &x, Vector &dir, Vector &q, Vector &o) { miso::calcSlipWallFlux<double, dim, ev>(x.GetData(), dir.GetData(), q.GetData(), o.GetData()); });
}
BOTHVARS(slip, h_slip)
template <int dim, bool ev> static void far(bool d)
{
   State<dim> qf("qfs"); adept::Stack st; miso::FarFieldBC<dim, ev> in(st, nullptr, qf);
   State<dim, ev> q("q"); Dir<dim> x("x"), dir("dir", true);
   bnd<dim, ev>(in, d, q, x, dir, [&](Vector &, Vector &dir, Vector &q, Vector &o) { Vector w(dim + 2); miso::calcFarFieldFlux<double, dim, ev>(dir.GetData(), qf.GetData(), q.GetData(), w.GetData(), o.GetData()); });
}
BOTHVARS(far, h_far)
template <bool ev> static void vortex(bool d)
{
   adept::Stack st; miso::IsentropicVortexBC<2, ev> in(st, nullptr);
   State<2, ev> q("q"); Dir<2> x("x"), dir("dir", true);
   x(0) = vp_real("xr", 0, 0.8, 1.6); x(1) = vp_real("xr", 1, 0.8, 1.6); vp_assume(x(0) * x(0) + x(1) * x(1) > 1.0);
   bnd<2, ev>(in, d, q, x, dir, [](Vector &x, Vector &dir, Vector &q, Vector &o) { miso::calcIsentropicVortexFlux<double, ev>(x.GetData(), dir.GetData(), q.GetData(), o.GetData()); });
}
VP_CASE(h_vortex_c) { vortex<false>(false); }
VP_CASE(h_vortex_e) { vortex<true>(false); }
VP_CASE(h_vortex_dir_c) { vortex<false>(true); }
VP_CASE(h_vortex_dir_e) { vortex<true>(true); }
#ifndef VP_NATIVE
// an arbitrary flux, whatever the states: what the entropy correction starts from
template <int dim> static void anyflux(double *flux)
{
   static int calls = 0; double k[2]; k[0] = ++calls;
   for (int i = 0; i < dim + 2; ++i) { k[1] = i; flux[i] = vp_fn("bflux", 2, k); }
}
VP_CONTRACT(contract_bflux2) void contract_bflux2(const double *dir, const double *qbnd, const double *q, double *work, double *flux) { anyflux<2>(flux); }
VP_CONTRACT(contract_bflux3) void contract_bflux3(const double *dir, const double *qbnd, const double *q, double *work, double *flux) { anyflux<3>(flux); }
#endif
// boundary state: an arbitrary function of time and position with admissible values
template <int dim, bool ev> static void conserve(int which)
{
   State<dim> qb("qb");
   double tm = vp_real("t", 0, 0, 1);
   State<dim, ev> q("q"); Dir<dim> x("x"), dir("dir", true);
   adept::Stack st; miso::EntropyConserveBC<dim, ev> in(st, nullptr, [&](double t, const Vector &y, Vector &o) { vp_eq("the boundary state is that of the current time", t, tm); for (int i = 0; i < dim; ++i) { vp_eq("the boundary state is that of the point", y(i), x(i)); } for (int i = 0; i < dim + 2; ++i) { o(i) = qb(i); } });
   miso::MISOInputs inp; inp["time"] = tm; setInputs(in, inp);
   double U = 0.0; for (int i = 0; i < dim; ++i) { U += qb(i + 1) * dir(i); }
   if (which == 2)
   {
      Vector c(dim + 2); miso::calcConservativeVars<double, dim, ev>(q.GetData(), c.GetData());
      double psi = 0.0; for (int i = 0; i < dim; ++i) { psi += c(i + 1) * dir(i); }
      vp_eq("the boundary functional is the potential flux plus the entropy flux of the boundary state", in.calcBndryFun(x, dir, q), psi + U / qb(0) * miso::entropy<double, dim>(qb.GetData()));
      return;
   }
   bnd<dim, ev>(in, which == 1, q, x, dir, [&](Vector &, Vector &dir, Vector &q, Vector &o)
   {
      Vector c(dim + 2); miso::calcConservativeVars<double, dim, ev>(q.GetData(), c.GetData());
      miso::calcBoundaryFluxEC<double, dim>(dir.GetData(), qb.GetData(), c.GetData(), U / qb(0) * miso::entropy<double, dim>(qb.GetData()), o.GetData());
   }, false);
}
template <int dim, bool ev> static void conserve_fun() { conserve<dim, ev>(2); }
BOTHVARS(conserve, h_conserve)
VARS(conserve_fun, h_conserve_fun)
template <int dim, bool ev> static void control(bool d)
{
   State<dim, ev> q("q"); Dir<dim> x("x"), dir("dir", true), xa("xa");
   double len = vp_real("len", 0, 0.5, 2), uc = vp_real("control", 0, -1, 1), a[1 + 2 * dim];
   auto scale = [](double l, const Vector &c, const Vector &p) { double s[1 + 2 * dim]; s[0] = l; for (int i = 0; i < dim; ++i) { s[1 + i] = c(i); s[1 + dim + i] = p(i); } return vp_fn("scale", 1 + 2 * dim, s); };
   Vector xo(dim); xo = 0.25;
   adept::Stack st; miso::ControlBC<dim, ev> in(st, nullptr, scale, xo, len);
   miso::MISOInputs inp; inp["control"] = uc; mfem::Vector xin(xa.GetData(), dim); inp["x-actuator"] = xin; setInputs(in, inp);
   bnd<dim, ev>(in, d, q, x, dir, [&](Vector &x, Vector &dir, Vector &q, Vector &o)
   {
      Vector c(dim + 2); miso::calcConservativeVars<double, dim, ev>(q.GetData(), c.GetData());
      miso::calcControlFlux<double, dim>(dir.GetData(), c.GetData(), uc * scale(len, xa, x), o.GetData());
   });
}
BOTHVARS(control, h_control)
template <int dim, bool ev> static void iface(int which)
{
   double dc = vp_real("diss", 0, 0, 1); vp_assume(dc >= 0.0);
   adept::Stack st; miso::InterfaceIntegrator<dim, ev> in(st, dc, nullptr);
   State<dim, ev> a("qL"), b("qR"); Dir<dim> dir("dir", true);
   Vector f(dim + 2), g(dim + 2), v(dim + 2), w(dim + 2);
   auto fn = [&](Vector &o) { in.calcFlux(dir, a, b, o); };
   if (which == 0)
   {
      in.calcFlux(dir, a, b, f);
      if (ev) { miso::calcIsmailRoeFaceFluxWithDissUsingEntVars<double, dim>(dir.GetData(), dc, a.GetData(), b.GetData(), g.GetData()); }
      else { miso::calcIsmailRoeFaceFluxWithDiss<double, dim>(dir.GetData(), dc, a.GetData(), b.GetData(), g.GetData()); }
      same(FLUX, f, g);
      miso::calcEntropyVars<double, dim, ev>(a.GetData(), v.GetData()); miso::calcEntropyVars<double, dim, ev>(b.GetData(), w.GetData()); v -= w;
      vp_eq("the interface functional is the flux contracted with the jump of the entropy variables", in.calcIFaceFun(dir, a, b), v * g);
   }
   if (which == 1) { DenseMatrix L(dim + 2), R(dim + 2); in.calcFluxJacState(dir, a, b, L, R); jac(JLEFT, a, dim + 2, fn, L); jac(JRIGHT, b, dim + 2, fn, R); }
   if (which == 2) { DenseMatrix J(dim + 2, dim); in.calcFluxJacDir(dir, a, b, J); jac(JDIR, dir, dim + 2, fn, J); }
}
template <int dim, bool ev> static void iface_flux() { iface<dim, ev>(0); }
template <int dim, bool ev> static void iface_state() { iface<dim, ev>(1); }
template <int dim, bool ev> static void iface_dir() { iface<dim, ev>(2); }
VARS(iface_flux, h_iface_flux)
VARS(iface_state, h_iface_state)
VARS(iface_dir, h_iface_dir)
template <int dim, bool ev> static void force()
{
   State<dim, ev> q("q"); Dir<dim> x("x"), dir("dir"), n("nrm");
   adept::Stack st; miso::PressureForce<dim, ev> in(st, nullptr, n);
   Vector g(dim + 2), s(dim + 2); miso::calcSlipWallFlux<double, dim, ev>(x.GetData(), dir.GetData(), q.GetData(), s.GetData());
   double e = 0.0; for (int i = 0; i < dim; ++i) { e += n(i) * s(i + 1); }
   vp_eq("the force is the wall's momentum flux in the direction of the force", in.calcBndryFun(x, dir, q), e);
   in.calcFlux(x, dir, q, g);
   grad("the gradient of the force is its derivative in the state", q, [&]() { return in.calcBndryFun(x, dir, q); }, g);
}
VARS(force, h_force)
// functionals of the flow-control problem, whichever variables the state is held in
template <int dim, bool ev> static void bent()
{
   // the reference state is any state (its initialiser runs before the program, not in the proof)
   if (vp_symbolic()) { double &p = const_cast<double &>(miso::euler::press_ref), &r = const_cast<double &>(miso::euler::rho_ref); p = vp_real("press_ref", 0, 0.5, 1.5); r = vp_real("rho_ref", 0, 0.5, 1.5); vp_assume(p > 0.0); vp_assume(r > 0.0); }
   State<dim, ev> q("q"); Dir<dim> x("x"), dir("dir", true), xa("xa");
   double len = vp_real("len", 0, 0.5, 2), sc = vp_real("scale", 0, 0, 1); Vector xo(dim), c(dim + 2); xo = 0.25;
   adept::Stack st; miso::BoundaryEntropy<dim, ev> in(st, nullptr, [&](double l, const Vector &c, const Vector &p)
   {
      vp_eq("the entropy is scaled by the length scale", l, len);
      for (int i = 0; i < dim; ++i) { vp_eq("the entropy is scaled by the distance to the actuator", c(i), xa(i)); vp_eq("the entropy is scaled at the point", p(i), x(i)); }
      return sc;
   }, xo, len);
   miso::MISOInputs inp; Vector xin(xa.GetData(), dim); inp["x-actuator"] = xin; setInputs(in, inp);
   miso::calcConservativeVars<double, dim, ev>(q.GetData(), c.GetData());
   double dA = 0.0; for (int i = 0; i < dim; ++i) { dA += dir(i) * dir(i); }
   double S = miso::entropy<double, dim>(c.GetData()), p = miso::pressure<double, dim>(c.GetData());
   vp_eq("the boundary entropy is that of the state", in.calcBndryFun(x, dir, q), sc * (S + miso::euler::rho_ref * (p - miso::euler::press_ref) / miso::euler::press_ref) * sqrt(dA));
}
VARS(bent, h_bent)
template <int dim> static void supply()
{
   constexpr bool ev = false; // the flux is not written for entropy variables: it throws
   State<dim> qf("qfs"); State<dim, ev> q("q"); Dir<dim> x("x"), dir("dir", true); Vector w(dim + 2), f(dim + 2), c(dim + 2);
   adept::Stack st; miso::SupplyRate<dim, ev> in(st, nullptr, qf);
   miso::calcFarFieldFlux2<double, dim, ev>(dir.GetData(), qf.GetData(), q.GetData(), w.GetData(), f.GetData());
   miso::calcEntropyVars<double, dim, ev>(q.GetData(), w.GetData()); miso::calcConservativeVars<double, dim, ev>(q.GetData(), c.GetData());
   double psi = 0.0; for (int i = 0; i < dim; ++i) { psi += dir(i) * c(i + 1); }
   vp_eq("the supply rate is the potential flux less the contracted flux", in.calcBndryFun(x, dir, q), psi - w * f);
}
VP_CASE(h_supply_1) { supply<1>(); }
VP_CASE(h_supply_2) { supply<2>(); }
VP_CASE(h_supply_3) { supply<3>(); }
