// Contracts: manufactured solutions and the isentropic vortex
#include "vp_dual.hpp"
#include "euler_fluxes.hpp"
#include "navier_stokes_fluxes.hpp"
#include "vp_harness.hpp"
#include "vp_diff.hpp"
using namespace miso;

// primitive quantity of the state computed by Exact: 0 density, 1..dim velocity, dim+1 temperature p/rho
template <int dim> double prim_of(const double *q, int k)
{
   if (k == 0) return q[0];
   if (k <= dim) return q[k] / q[0];
   return pressure<double, dim>(q) / q[0];
}
// source == div(inviscid flux - viscous flux) of the exact state
template <int dim, class E> void mms(E exact, double *x, const double *src, double mu, double kappa)
{
   auto prim = [&](double *y, int k) { double q[5] = {0, 0, 0, 0, 0}; exact(y, q); return prim_of<dim>(q, k); };
   auto grad = [&](double *y, int k, int d) { return vp_d([&](double *z) { return prim(z, k); }, y, d); };
   auto tau = [&](double *y, int i, int d) {
      double div = 0;
      if (i == d) for (int k = 0; k < dim; ++k) div += grad(y, k + 1, k);
      return mu * (grad(y, i + 1, d) + grad(y, d + 1, i) - 2.0 / 3.0 * div);
   };
   auto flux = [&](double *y, int d, int s) {
      double q[5] = {0, 0, 0, 0, 0}, f[5], n[dim];
      exact(y, q);
      for (int k = 0; k < dim; ++k) n[k] = k == d ? 1.0 : 0.0;
      calcEulerFlux<double, dim>(n, q, f);
      double r = f[s];
      if (mu == 0.0 && kappa == 0.0) return r;
      if (s > 0 && s <= dim) r -= tau(y, s - 1, d);
      if (s == dim + 1)
      {
         r -= kappa * grad(y, dim + 1, d);
         for (int i = 0; i < dim; ++i) r -= q[i + 1] / q[0] * tau(y, i, d);
      }
      return r;
   };
   vp_tol(2e-5);
   for (int s = 0; s < dim + 2; ++s)
   {
      double div = 0;
      for (int d = 0; d < dim; ++d) div += vp_d([&](double *y) { return flux(y, d, s); }, x, d);
      const char *l[5] = {"mass source balances the exact state", "x-momentum source balances the exact state", "y-momentum source balances the exact state",
                          "z-momentum source balances the exact state", "energy source balances the exact state"};
      vp_eq(s == dim + 1 ? l[4] : l[s], src[s], div);
   }
   vp_reach("end");
}
static double visc(double &mu)
{
   mu = vp_real("mu", 0, 0.1, 2.0);
   vp_assume(mu > 0);
   double Pr = vp_real("Pr", 0, 0.3, 2.0);
   vp_assume(Pr > 0);
   return Pr;
}
VP_HARNESS(h_mms_visc_2)
{
   double x[2], src[4], mu, Pr = visc(mu);
   for (int i = 0; i < 2; ++i) x[i] = vp_real("x", i, 0.0, 1.0);
   calcViscousMMS<double>(2, mu, Pr, x, src);
   mms<2>([](double *y, double *q) { viscousMMSExact<double>(2, y, q); }, x, src, mu, mu * 1.4 / (Pr * 0.4));
}
VP_HARNESS(h_mms_visc_3)
{
   double x[3], src[5], mu, Pr = visc(mu);
   for (int i = 0; i < 3; ++i) x[i] = vp_real("x", i, 0.0, 1.0);
   calcViscousMMS<double>(3, mu, Pr, x, src);
   mms<3>([](double *y, double *q) { viscousMMSExact<double>(3, y, q); }, x, src, mu, mu * 1.4 / (Pr * 0.4));
}
VP_HARNESS(h_mms_inv_3)
{
   double x[3], src[5];
   for (int i = 0; i < 3; ++i) x[i] = vp_real("x", i, 0.0, 1.0);
   calcInviscidMMS<double>(3, x, src);
   mms<3>([](double *y, double *q) { InviscidMMSExact<double>(3, y, q); }, x, src, 0.0, 0.0);
}
// the vortex is a steady, homentropic solution of the Euler equations with circular streamlines
VP_HARNESS(h_vortex)
{
   double x[2], q[4];
   x[0] = vp_real("x", 0, 0.3, 3.0);
   x[1] = vp_real("x", 1, -3.0, 3.0);
   vp_assume(x[0] > 1e-15);
   double r2 = x[0] * x[0] + x[1] * x[1];
   vp_assume(1.0 + 0.5 * 0.4 * 0.25 * (1.0 - 1.0 / r2) > 0); // outside the vacuum core
   calcIsentropicVortexState<double>(x, q);
   double p = pressure<double, 2>(q);
   vp_lt("density positive", 0.0, q[0]);
   vp_eq("flow is tangential", q[1] * x[0] + q[2] * x[1], 0.0);
   // p / rho^1.4 has the value it takes at radius 1 (density 2, pressure 1/1.4)
   vp_eq("homentropic", std::pow(p, 5) * 128.0 * std::pow(1.4, 5), std::pow(q[0], 7));
   vp_eq("total enthalpy constant", (q[3] + p) / q[0], 1.3125);
   const char *l[4] = {"steady: mass", "steady: x-momentum", "steady: y-momentum", "steady: energy"};
   vp_tol(2e-5);
   for (int s = 0; s < 4; ++s)
   {
      double div = 0;
      for (int d = 0; d < 2; ++d)
         div += vp_d([&](double *y) {
            double n[2] = {d == 0 ? 1.0 : 0.0, d == 1 ? 1.0 : 0.0}, u[4], f[4];
            calcIsentropicVortexState<double>(y, u);
            calcEulerFlux<double, 2>(n, u, f);
            return f[s];
         }, x, d);
      vp_eq(l[s], div, 0.0);
   }
   vp_reach("end");
}
