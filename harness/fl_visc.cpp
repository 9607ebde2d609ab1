// Contracts: viscous operators of navier_stokes_fluxes.hpp
#include "vp_dual.hpp"
#include "euler_fluxes.hpp"
#include "navier_stokes_fluxes.hpp"
#include "vp_harness.hpp"
using namespace miso;
#include "fluid_state.hpp"

static double visc_coeffs(double &mu)
{
   mu = vp_real("mu", 0, 0.1, 2.0);
   vp_assume(mu > 0);
   double Pr = vp_real("Pr", 0, 0.3, 2.0);
   vp_assume(Pr > 0);
   return Pr;
}
// the viscous flux is tau.n, u.tau.n + kappa grad T
template <int dim> void viscflux()
{
   double q[dim + 2], pr[dim + 2], mu, Pr = visc_coeffs(mu);
   conservative_state<dim>("q", q, pr);
   double du[dim * dim], drho[dim], dp[dim];
   real_vec<dim * dim>("du", du); // du[i*dim+j] = d u_i / d x_j
   real_vec<dim>("drho", drho);
   real_vec<dim>("dp", dp);
   double Dw[dim * (dim + 2)], dT[dim];
   for (int j = 0; j < dim; ++j)
   {
      Dual p[dim + 2], w[dim + 2], ke = 0.0;
      p[0] = Dual(pr[0], drho[j]);
      for (int i = 0; i < dim; ++i)
      {
         Dual u(pr[i + 1], du[i * dim + j]);
         p[i + 1] = p[0] * u;
         ke += 0.5 * u * u;
      }
      Dual P(pr[dim + 1], dp[j]);
      p[dim + 1] = P * 2.5 + p[0] * ke;
      calcEntropyVars<Dual, dim, false>(p, w);
      for (int s = 0; s < dim + 2; ++s) Dw[j * (dim + 2) + s] = w[s].d;
      dT[j] = (P / p[0]).d;
   }
   double div = 0;
   for (int i = 0; i < dim; ++i) div += du[i * dim + i];
   for (int d = 0; d < dim; ++d)
   {
      double f[dim + 2], work = 0;
      applyViscousScaling<double, dim>(d, mu, Pr, q, Dw, f);
      vp_eq("no viscous mass flux", f[0], 0.0);
      for (int i = 0; i < dim; ++i)
      {
         double tau = mu * (du[i * dim + d] + du[d * dim + i] - (i == d ? 2.0 / 3.0 * div : 0.0));
         vp_eq("viscous stress", f[i + 1], tau);
         work += tau * pr[i + 1];
      }
      vp_eq("work of the stress plus heat flux", f[dim + 1], work + mu * 1.4 / (0.4 * Pr) * dT[d]);
   }
   vp_reach("end");
}
VP_HARNESS(h_viscflux_1) { viscflux<1>(); }
VP_HARNESS(h_viscflux_2) { viscflux<2>(); }
VP_HARNESS(h_viscflux_3) { viscflux<3>(); }

template <int dim> void cij()
{
   double q[dim + 2], pr[dim + 2], mu, Pr = visc_coeffs(mu);
   conservative_state<dim>("q", q, pr);
   double u[dim + 2], v[dim + 2];
   real_vec<dim + 2>("u", u);
   real_vec<dim + 2>("v", v);
   for (int i = 0; i < dim; ++i)
      for (int j = 0; j < dim; ++j)
      {
         double a[dim + 2], b[dim + 2];
         for (int k = 0; k < dim + 2; ++k) a[k] = b[k] = 0;
         applyCijMatrix<double, dim>(i, j, mu, Pr, q, v, a);
         applyCijMatrix<double, dim>(j, i, mu, Pr, q, u, b);
         vp_eq("C_ij = C_ji^T", dotp<dim + 2>(u, a), dotp<dim + 2>(v, b));
         // the result is accumulated
         double c[dim + 2];
         for (int k = 0; k < dim + 2; ++k) c[k] = u[k];
         applyCijMatrix<double, dim>(i, j, mu, Pr, q, v, c);
         for (int k = 0; k < dim + 2; ++k) vp_eq("product is accumulated", c[k], u[k] + a[k]);
      }
   double Dw[dim * (dim + 2)], form = 0;
   real_vec<dim *(dim + 2)>("Dw", Dw);
   for (int d = 0; d < dim; ++d)
   {
      double f[dim + 2];
      applyViscousScaling<double, dim>(d, mu, Pr, q, Dw, f);
      form += dotp<dim + 2>(Dw + d * (dim + 2), f);
   }
   double T = pr[dim + 1] / pr[0], m[dim][dim], s = 0, h = 0;
   for (int i = 0; i < dim; ++i)
   {
      for (int j = 0; j < dim; ++j) m[i][j] = Dw[i * (dim + 2) + j + 1] + pr[j + 1] * Dw[i * (dim + 2) + dim + 1];
      h += Dw[i * (dim + 2) + dim + 1] * Dw[i * (dim + 2) + dim + 1];
   }
   for (int i = 0; i < dim; ++i)
   {
      s += 2.0 * (3 - dim) / 3.0 * m[i][i] * m[i][i];
      for (int j = 0; j < i; ++j)
         s += 2.0 / 3.0 * (m[i][i] - m[j][j]) * (m[i][i] - m[j][j]) + (m[i][j] + m[j][i]) * (m[i][j] + m[j][i]);
   }
   vp_eq("viscous dissipation is a sum of squares", form, mu * T * s + mu * 1.4 / (0.4 * Pr) * T * T * h);
   vp_reach("end");
}
VP_HARNESS(h_cij_1) { cij<1>(); }
VP_HARNESS(h_cij_2) { cij<2>(); }
VP_HARNESS(h_cij_3) { cij<3>(); }

template <int dim> void adiabatic()
{
   double q[dim + 2], pr[dim + 2], mu, Pr = visc_coeffs(mu), dir[dim];
   conservative_state<dim>("q", q, pr);
   double n2 = nonzero_dir<dim>("dir", dir);
   double Dw[dim * (dim + 2)], Dp[dim * (dim + 2)], f[dim + 2], e[dim + 2], g[dim + 2];
   real_vec<dim *(dim + 2)>("Dw", Dw);
   calcAdiabaticWallFlux<double, dim>(dir, mu, Pr, q, Dw, f);
   double work = 0;
   for (int i = 0; i < dim; ++i) work += pr[i + 1] * f[i + 1];
   vp_eq("no viscous mass flux", f[0], 0.0);
   vp_eq("no heat flux through an adiabatic wall", f[dim + 1], work);
   // equals the viscous flux of the gradient with the normal temperature derivative removed
   double dn = 0;
   for (int d = 0; d < dim; ++d) dn += Dw[d * (dim + 2) + dim + 1] * dir[d] / n2;
   for (int d = 0; d < dim; ++d)
      for (int s = 0; s < dim + 2; ++s) Dp[d * (dim + 2) + s] = Dw[d * (dim + 2) + s] - (s == dim + 1 ? dn * dir[d] : 0.0);
   for (int s = 0; s < dim + 2; ++s) e[s] = 0;
   for (int d = 0; d < dim; ++d)
   {
      applyViscousScaling<double, dim>(d, mu, Pr, q, Dp, g);
      for (int s = 0; s < dim + 2; ++s) e[s] += dir[d] * g[s];
   }
   for (int s = 0; s < dim + 2; ++s) vp_eq("wall flux = C (Dw without normal temperature gradient)", f[s], e[s]);
   double Z[dim * (dim + 2)];
   setZeroNormalDeriv<double, dim>(dir, Dw, Z);
   for (int s = 0; s < dim + 2; ++s)
   {
      double a = 0, b = 0;
      for (int d = 0; d < dim; ++d) { a += dir[d] * Z[d * (dim + 2) + s]; b += dir[d] * Dw[d * (dim + 2) + s] / n2; }
      vp_eq("normal derivative set to zero", a, 0.0);
      for (int d = 0; d < dim; ++d) vp_eq("tangential derivative kept", Z[d * (dim + 2) + s], Dw[d * (dim + 2) + s] - b * dir[d]);
   }
   vp_reach("end");
}
VP_HARNESS(h_adiabatic_1) { adiabatic<1>(); }
VP_HARNESS(h_adiabatic_2) { adiabatic<2>(); }
VP_HARNESS(h_adiabatic_3) { adiabatic<3>(); }

template <int dim> void noslip()
{
   double q[dim + 2], pr[dim + 2], qf[dim + 2], pf[dim + 2], mu, Pr = visc_coeffs(mu), dir[dim], f[dim + 2], g[dim + 2];
   conservative_state<dim>("q", q, pr);
   conservative_state<dim>("qfs", qf, pf);
   double n2 = nonzero_dir<dim>("dir", dir), J = vp_real("J", 0, 0.2, 2.0), uc = vp_real("uc", 0, -2.0, 2.0);
   vp_assume(J > 0);
   calcNoSlipPenaltyFlux<double, dim>(dir, J, mu, Pr, qf, q, f);
   double k = mu * pf[dim + 1] / pf[0] * (dim + 1.0 / 3.0) * std::sqrt(n2) / J;
   vp_lt("penalty coefficient positive", 0.0, k);
   vp_eq("penalty adds no mass", f[0], 0.0);
   vp_eq("penalty adds no energy", f[dim + 1], 0.0);
   for (int i = 0; i < dim; ++i) vp_eq("penalty opposes the slip velocity", f[i + 1], k * pr[0] / pr[dim + 1] * pr[i + 1]);
   // entropy-stable: (w - w_bc).f = k |rho u/p|^2 >= 0
   calcControlPenaltyFlux<double, dim>(dir, J, mu, Pr, uc, qf, q, g);
   vp_eq("control penalty adds no mass", g[0], 0.0);
   vp_eq("control penalty adds no energy", g[dim + 1], 0.0);
   for (int i = 0; i < dim; ++i)
      vp_eq("control penalty opposes the departure from the control velocity", g[i + 1], k * pr[0] / pr[dim + 1] * (pr[i + 1] - uc * dir[i] / std::sqrt(n2)));
   vp_reach("end");
}
VP_HARNESS(h_noslip_1) { noslip<1>(); }
VP_HARNESS(h_noslip_2) { noslip<2>(); }
VP_HARNESS(h_noslip_3) { noslip<3>(); }

// dual consistency: sum_d V_d . dual_d(dw) = -dw . wallflux(V)
template <int dim> void dualflux()
{
   double q[dim + 2], pr[dim + 2], mu, Pr = visc_coeffs(mu), dir[dim];
   conservative_state<dim>("q", q, pr);
   nonzero_dir<dim>("dir", dir);
   double V[dim * (dim + 2)], F[dim * (dim + 2)], f[dim + 2];
   real_vec<dim *(dim + 2)>("V", V);
   calcNoSlipDualFlux<double, dim>(dir, mu, Pr, q, F);
   calcAdiabaticWallFlux<double, dim>(dir, mu, Pr, q, V, f);
   double a = 0, b = 0;
   for (int i = 0; i < dim * (dim + 2); ++i) a += V[i] * F[i];
   for (int i = 0; i < dim; ++i) b -= q[i + 1] / pr[dim + 1] * f[i + 1];
   vp_eq("dual flux is the adjoint of the wall flux", a, b);
   vp_reach("end");
}
VP_HARNESS(h_dualflux_1) { dualflux<1>(); }
VP_HARNESS(h_dualflux_2) { dualflux<2>(); }
VP_HARNESS(h_dualflux_3) { dualflux<3>(); }

template <int dim> void sutherland()
{
   double q[dim + 2], pr[dim + 2], q2[dim + 2], pr2[dim + 2];
   conservative_state<dim>("q", q, pr);
   conservative_state<dim>("q2", q2, pr2);
   double S = 198.6 / 460.0;
   double T = 1.4 * pr[dim + 1] / pr[0], T2 = 1.4 * pr2[dim + 1] / pr2[0];
   double mu = calcSutherlandViscosity<double, dim>(q);
   vp_eq("Sutherland's law", mu * (T + S), T * std::sqrt(T) * (1 + S));
   vp_lt("viscosity positive", 0.0, mu);
   vp_reach("end");
}
VP_HARNESS(h_sutherland_1) { sutherland<1>(); }
VP_HARNESS(h_sutherland_2) { sutherland<2>(); }
VP_HARNESS(h_sutherland_3) { sutherland<3>(); }
