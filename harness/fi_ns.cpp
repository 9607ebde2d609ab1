// VP-DEFS -Doverride=
// VP-OPT split = .
// Pointwise functions of the Navier-Stokes integrators (navier_stokes_integ_def.hpp): the
// fluxes each boundary condition imposes, the functionals, and the Jacobians in the state and
// in the gradient of the entropy variables obtained from them by differentiation.
#include "std_model.hpp"
#include "mfem_fe_model.hpp"
#include "mfem_iso_priv.hpp"
#include "sbp_fe.cpp"
#include "orthopoly.cpp"
#include "utils.cpp"
#include "miso_input.cpp"
#include "euler_integ.hpp"
#include "navier_stokes_integ.hpp"
#include "fi_fixture.hpp"
using std::vector;
static const char *JDW = "the Jacobian in the gradient is the derivative of the flux";
// Reynolds and Prandtl numbers, viscosity (constant, or Sutherland's law when negative)
struct Gas
{
   double Re, Pr, mu;
   Gas(bool suth) { Re = vp_real("Re", 0, 0.5, 2); Pr = vp_real("Pr", 0, 0.5, 1); mu = suth ? -1.0 : vp_real("mu", 0, 0.5, 1.5); vp_assume(Re > 0.0); vp_assume(Pr > 0.0); if (!suth) { vp_assume(mu > 0.0); } }
   template <int dim> double mu_Re(const Vector &q) const { return (mu < 0.0 ? miso::calcSutherlandViscosity<double, dim>(q.GetData()) : mu) / Re; }
};
// Jacobians in the gradient come one matrix per direction
template <int dim, class F> static void jacdw(Mat<dim> &Dw, F f, vector<DenseMatrix> &J)
{
   const int n = dim + 2; Vector all(n * n * dim);
   for (int d = 0; d < dim; ++d) { vp_ieq("one row per flux component", J[d].Height(), n); vp_ieq("one column per state", J[d].Width(), n); for (int i = 0; i < n * n; ++i) { all(i + n * n * d) = J[d].GetData()[i]; } }
   derivs(JDW, Dw.v, n, f, all.GetData());
}
template <int dim> struct Blocks : vector<DenseMatrix> { Blocks() : vector<DenseMatrix>(dim) { for (int d = 0; d < dim; ++d) { (*this)[d].SetSize(dim + 2); for (int i = 0; i < (dim + 2) * (dim + 2); ++i) { (*this)[d].GetData()[i] = 7.0; } } } };
template <int dim> static void scaling(bool suth, int which)
{
   Gas g(suth); adept::Stack st; miso::ESViscousIntegrator<dim> in(st, g.Re, g.Pr, g.mu);
   State<dim> q("q"); Dir<dim> x("x"); Mat<dim> Dw("Dw", dim + 2, dim); int d = vp_choice("d", 0, dim - 1);
   Vector f(dim + 2), w(dim + 2); w = 0.0;
   auto fn = [&](Vector &o) { o = 0.0; in.applyScaling(d, x, q, Dw, o); };
   if (which == 0)
   {
      fn(f); miso::applyViscousScaling<double, dim>(d, g.mu_Re<dim>(q), g.Pr, q.GetData(), Dw.GetData(), w.GetData());
      same("the viscous flux is scaled by the viscosity over the Reynolds number", f, w);
      in.convertVars(q, f); miso::calcEntropyVars<double, dim, false>(q.GetData(), w.GetData()); same("entropy variables of the state", f, w);
      DenseMatrix J(dim + 2); in.convertVarsJacState(q, J);
      jac("the Jacobian of the entropy variables is their derivative", q, dim + 2, [&](Vector &o) { in.convertVars(q, o); }, J);
   }
   if (which == 1) { DenseMatrix J(dim + 2); in.applyScalingJacState(d, x, q, Dw, J); jac(JSTATE, q, dim + 2, fn, J); }
   if (which == 2) { Blocks<dim> J; in.applyScalingJacDw(d, x, q, Dw, J); jacdw<dim>(Dw, fn, J); }
}
#define CASES(h, name) VP_CASE(h##_flux_1) { name<1>(false, 0); } VP_CASE(h##_flux_2) { name<2>(false, 0); } VP_CASE(h##_flux_3) { name<3>(false, 0); } VP_CASE(h##_state_1) { name<1>(false, 1); } VP_CASE(h##_state_2) { name<2>(false, 1); } VP_CASE(h##_state_3) { name<3>(false, 1); } VP_CASE(h##_grad_1) { name<1>(false, 2); } VP_CASE(h##_grad_2) { name<2>(false, 2); } VP_CASE(h##_grad_3) { name<3>(false, 2); }
#define SUTH(h, name) VP_CASE(h##_sflux_1) { name<1>(true, 0); } VP_CASE(h##_sflux_2) { name<2>(true, 0); } VP_CASE(h##_sflux_3) { name<3>(true, 0); } VP_CASE(h##_sstate_1) { name<1>(true, 1); } VP_CASE(h##_sstate_2) { name<2>(true, 1); } VP_CASE(h##_sstate_3) { name<3>(true, 1); } VP_CASE(h##_sgrad_1) { name<1>(true, 2); } VP_CASE(h##_sgrad_2) { name<2>(true, 2); } VP_CASE(h##_sgrad_3) { name<3>(true, 2); }
CASES(h_visc, scaling)
SUTH(h_visc, scaling)
// a boundary condition: `want` is the flux it imposes
template <int dim, class I, class G> static void bnd(I &in, int which, State<dim> &q, Dir<dim> &x, Dir<dim> &dir, Mat<dim> &Dw, double wt, G want)
{
   Vector f(dim + 2), g(dim + 2), w(dim + 2);
   auto fn = [&](Vector &o) { in.calcFlux(x, dir, wt, q, Dw, o); };
   if (which == 0)
   {
      fn(f); want(g); same(FLUX, f, g);
      miso::calcEntropyVars<double, dim, false>(q.GetData(), w.GetData());
      vp_eq("the boundary functional is the flux contracted with the entropy variables", in.calcBndryFun(x, dir, wt, q, Dw), w * f);
      in.convertVars(q, f); same("entropy variables of the state", f, w);
      DenseMatrix D(dim + 2, dim); D = 3.0; in.calcFluxDv(x, dir, q, D);
      for (int i = 0; i < (dim + 2) * dim; ++i) { vp_eq("no flux is scaled by the test function's derivative", D.GetData()[i], 0.0); }
      Blocks<dim> J; in.calcFluxDvJacState(x, dir, q, J);
      for (int d = 0; d < dim; ++d) { for (int i = 0; i < (dim + 2) * (dim + 2); ++i) { vp_eq("its Jacobian is zero", J[d].GetData()[i], 0.0); } }
   }
   if (which == 1)
   {
      DenseMatrix J(dim + 2); in.calcFluxJacState(x, dir, wt, q, Dw, J); jac(JSTATE, q, dim + 2, fn, J);
      DenseMatrix K(dim + 2); in.convertVarsJacState(q, K); jac("the Jacobian of the entropy variables is their derivative", q, dim + 2, [&](Vector &o) { in.convertVars(q, o); }, K);
   }
   if (which == 2) { Blocks<dim> J; in.calcFluxJacDw(x, dir, wt, q, Dw, J); jacdw<dim>(Dw, fn, J); }
}
template <int dim> static void wallflux(const Gas &g, const Vector &qfs, const Vector &x, const Vector &dir, double wt, const Vector &q, const DenseMatrix &Dw, Vector &o, bool slip = true)
{
   Vector w(dim + 2); double m = g.mu_Re<dim>(q);
   if (slip) { miso::calcSlipWallFlux<double, dim>(x.GetData(), dir.GetData(), q.GetData(), o.GetData()); }
   miso::calcAdiabaticWallFlux<double, dim>(dir.GetData(), m, g.Pr, q.GetData(), Dw.GetData(), w.GetData()); o -= w;
   miso::calcNoSlipPenaltyFlux<double, dim>(dir.GetData(), wt, m, g.Pr, qfs.GetData(), q.GetData(), w.GetData()); o += w;
}
// viscous flux of a gradient whose normal part is dropped
template <int dim> static void neumann(const Gas &g, const Vector &dir, const Vector &q, const DenseMatrix &Dw, Vector &o)
{
   DenseMatrix D(dim + 2, dim); double m = g.mu_Re<dim>(q);
   miso::setZeroNormalDeriv<double, dim>(dir.GetData(), Dw.GetData(), D.GetData());
   for (int d = 0; d < dim; ++d) { Vector w(dim + 2); w = 0.0; miso::applyViscousScaling<double, dim>(d, m, g.Pr, q.GetData(), D.GetData(), w.GetData()); for (int i = 0; i < dim + 2; ++i) { o(i) -= w(i) * dir(d); } }
}
#define SETUP Gas g(suth); adept::Stack st; State<dim> q("q"); Dir<dim> x("x"), dir("dir", true); Mat<dim> Dw("Dw", dim + 2, dim); double wt = vp_real("jac", 0, 0.5, 2); vp_assume(wt > 0.0);
template <int dim> static void noslip(bool suth, int which)
{
   SETUP State<dim> qf("qfs"); miso::NoSlipAdiabaticWallBC<dim> in(st, nullptr, g.Re, g.Pr, qf, g.mu);
   bnd<dim>(in, which, q, x, dir, Dw, wt, [&](Vector &o) { wallflux<dim>(g, qf, x, dir, wt, q, Dw, o); });
}
CASES(h_noslip, noslip)
SUTH(h_noslip, noslip)
template <int dim> static void slip(bool suth, int which)
{
   SETUP miso::ViscousSlipWallBC<dim> in(st, nullptr, g.Re, g.Pr, g.mu);
   bnd<dim>(in, which, q, x, dir, Dw, wt, [&](Vector &o) { miso::calcSlipWallFlux<double, dim>(x.GetData(), dir.GetData(), q.GetData(), o.GetData()); neumann<dim>(g, dir, q, Dw, o); });
}
CASES(h_slip, slip)
SUTH(h_slip, slip)
template <int dim, template <int> class BC> static void inviscid(bool suth, int which)
{
   SETUP State<dim> qb("qb"); BC<dim> in(st, nullptr, g.Re, g.Pr, qb, g.mu);
   bnd<dim>(in, which, q, x, dir, Dw, wt, [&](Vector &o) { Vector w(dim + 2); miso::calcBoundaryFlux<double, dim>(dir.GetData(), qb.GetData(), q.GetData(), w.GetData(), o.GetData()); });
}
template <int dim> static void inflow(bool s, int which) { inviscid<dim, miso::ViscousInflowBC>(s, which); }
template <int dim> static void outflow(bool s, int which) { inviscid<dim, miso::ViscousOutflowBC>(s, which); }
template <int dim> static void farfield(bool s, int which) { inviscid<dim, miso::ViscousFarFieldBC>(s, which); }
CASES(h_in, inflow)
CASES(h_out, outflow)
CASES(h_far, farfield)
// exact solution: an arbitrary admissible state at the point
template <int dim> static void exact(bool suth, int which)
{
   SETUP State<dim> qb("qb");
   miso::ViscousExactBC<dim> in(st, nullptr, g.Re, g.Pr, [&](const Vector &y, Vector &o) { for (int i = 0; i < dim; ++i) { vp_eq("the exact solution is that of the point", y(i), x(i)); } for (int i = 0; i < dim + 2; ++i) { o(i) = qb(i); } }, g.mu);
   bnd<dim>(in, which, q, x, dir, Dw, wt, [&](Vector &o) { Vector w(dim + 2); miso::calcBoundaryFlux<double, dim>(dir.GetData(), qb.GetData(), q.GetData(), w.GetData(), o.GetData()); neumann<dim>(g, dir, q, Dw, o); });
}
CASES(h_exact, exact)
SUTH(h_exact, exact)
template <int dim> static void control(bool suth, int which)
{
   SETUP State<dim> qf("qfs"); Dir<dim> xa("xa");
   double len = vp_real("len", 0, 0.5, 2), uc = vp_real("control", 0, -1, 1), sc = vp_bool("near") ? vp_real("scale", 0, 0.001, 1) : vp_real("scale", 0, -1e-5, 1e-5);
   Vector xo(dim); xo = 0.25;
   miso::ViscousControlBC<dim> in(st, nullptr, g.Re, g.Pr, qf, [&](double l, const Vector &c, const Vector &p)
   {
      vp_eq("the control is scaled by the length scale", l, len);
      for (int i = 0; i < dim; ++i) { vp_eq("the control is scaled by the distance to the actuator", c(i), xa(i)); vp_eq("the control is scaled at the point", p(i), x(i)); }
      return sc;
   }, xo, len, g.mu);
   miso::MISOInputs inp; inp["control"] = uc; Vector xin(xa.GetData(), dim); inp["x-actuator"] = xin; setInputs(in, inp);
   bnd<dim>(in, which, q, x, dir, Dw, wt, [&](Vector &o) { miso::calcControlFlux<double, dim>(dir.GetData(), q.GetData(), uc * sc, o.GetData()); if (sc < 1e-4) { wallflux<dim>(g, qf, x, dir, wt, q, Dw, o, false); } });
}
CASES(h_control, control)
SUTH(h_control, control)
template <int dim> static void force(bool suth, int which)
{
   SETUP State<dim> qf("qfs"); Dir<dim> n("nrm"); miso::SurfaceForce<dim> in(st, nullptr, dim + 2, g.Re, g.Pr, qf, n, g.mu);
   Vector f(dim + 2); auto fn = [&]() { return in.calcBndryFun(x, dir, wt, q, Dw); };
   if (which == 0)
   {
      wallflux<dim>(g, qf, x, dir, wt, q, Dw, f); double e = 0.0; for (int i = 0; i < dim; ++i) { e += n(i) * f(i + 1); }
      vp_eq("the force is the wall's momentum flux in the direction of the force", fn(), e);
      Vector w(dim + 2); in.convertVars(q, f); miso::calcEntropyVars<double, dim, false>(q.GetData(), w.GetData()); same("entropy variables of the state", f, w);
      DenseMatrix K(dim + 2); in.convertVarsJacState(q, K); jac("the Jacobian of the entropy variables is their derivative", q, dim + 2, [&](Vector &o) { in.convertVars(q, o); }, K);
   }
   if (which == 1) { in.calcBndryFunJacState(x, dir, wt, q, Dw, f); grad("the gradient of the force is its derivative in the state", q, fn, f); }
   if (which == 2) { DenseMatrix D(dim + 2, dim); in.calcBndryFunJacDw(x, dir, wt, q, Dw, D); Vector d(D.GetData(), (dim + 2) * dim); grad("the gradient of the force is its derivative in the gradient", Dw.v, fn, d); }
}
CASES(h_force, force)
SUTH(h_force, force)
