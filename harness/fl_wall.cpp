// Contracts: wall/control/far-field boundary states and fluxes, spectral radius, LPS scaling, free stream, vortex
#include "vp_dual.hpp"
#include "euler_fluxes.hpp"
#include "vp_harness.hpp"
using namespace miso;
#include "fluid_state.hpp"

template <int dim> void slipwall()
{
   double q[dim + 2], w[dim + 2], pr[dim + 2], dir[dim], f[dim + 2], g[dim + 2], x[dim];
   conservative_state<dim>("q", q, pr);
   real_vec<dim>("dir", dir);
   real_vec<dim>("x", x);
   calcEntropyVars<double, dim, false>(q, w);
   calcSlipWallFlux<double, dim, false>(x, dir, q, f);
   calcSlipWallFlux<double, dim, true>(x, dir, w, g);
   vp_eq("no mass through the wall", f[0], 0.0);
   vp_eq("no energy through the wall", f[dim + 1], 0.0);
   for (int i = 0; i < dim; ++i) vp_eq("pressure force", f[i + 1], pr[dim + 1] * dir[i]);
   for (int i = 0; i < dim + 2; ++i) vp_eq("same flux from entropy variables", g[i], f[i]);
   double psi = 0;
   for (int i = 0; i < dim; ++i) psi += q[i + 1] * dir[i];
   vp_eq("wall flux is entropy conservative: w.f = psi", dotp<dim + 2>(w, f), psi);
   vp_reach("end");
}
VP_HARNESS(h_slipwall_1) { slipwall<1>(); }
VP_HARNESS(h_slipwall_2) { slipwall<2>(); }
VP_HARNESS(h_slipwall_3) { slipwall<3>(); }

template <int dim> void project()
{
   double q[dim + 2], qb[dim + 2], qbb[dim + 2], dir[dim], x[dim], f[dim + 2], g[dim + 2];
   conservative_state<dim>("q", q);
   double n2 = nonzero_dir<dim>("dir", dir);
   projectStateOntoWall<double, dim>(dir, q, qb);
   vp_eq("density kept", qb[0], q[0]);
   vp_eq("energy kept", qb[dim + 1], q[dim + 1]);
   vp_eq("no normal momentum", dotp<dim>(qb + 1, dir), 0.0);
   double m = dotp<dim>(q + 1, dir) / n2;
   for (int i = 0; i < dim; ++i) vp_eq("only the normal component is removed", qb[i + 1], q[i + 1] - m * dir[i]);
   projectStateOntoWall<double, dim>(dir, qb, qbb);
   for (int i = 0; i < dim + 2; ++i) vp_eq("idempotent", qbb[i], qb[i]);
   // for a state satisfying the wall condition the wall flux is the Euler flux
   real_vec<dim>("x", x);
   calcSlipWallFlux<double, dim, false>(x, dir, qb, f);
   calcEulerFlux<double, dim>(dir, qb, g);
   for (int i = 0; i < dim + 2; ++i) vp_eq("wall flux consistent", f[i], g[i]);
   vp_reach("end");
}
VP_HARNESS(h_project_1) { project<1>(); }
VP_HARNESS(h_project_2) { project<2>(); }
VP_HARNESS(h_project_3) { project<3>(); }

template <int dim> void control()
{
   double q[dim + 2], w[dim + 2], pr[dim + 2], dir[dim], f[dim + 2], g[dim + 2], x[dim];
   conservative_state<dim>("q", q, pr);
   double n2 = nonzero_dir<dim>("dir", dir);
   double uc = vp_real("uc", 0, -2.0, 2.0);
   calcEntropyVars<double, dim, false>(q, w);
   calcControlFlux<double, dim>(dir, q, uc, f);
   double U = -uc * std::sqrt(n2), psi = 0;
   for (int i = 0; i < dim; ++i) psi += q[i + 1] * dir[i];
   vp_eq("mass flux", f[0], q[0] * U);
   vp_eq("energy flux", f[dim + 1], (q[dim + 1] + pr[dim + 1]) * U);
   for (int i = 0; i < dim; ++i) vp_eq("momentum flux", f[i + 1], q[i + 1] * U + pr[dim + 1] * dir[i]);
   vp_eq("entropy flux is the control velocity times the entropy", dotp<dim + 2>(w, f) - psi, U * entropy<double, dim, false>(q));
   real_vec<dim>("x", x);
   calcControlFlux<double, dim>(dir, q, 0.0, f);
   calcSlipWallFlux<double, dim, false>(x, dir, q, g);
   for (int i = 0; i < dim + 2; ++i) vp_eq("inactive control is a slip wall", f[i], g[i]);
   // consistent when the flow leaves with the control velocity
   double m = dotp<dim>(pr + 1, dir);
   double uc2 = -m / std::sqrt(n2);
   calcControlFlux<double, dim>(dir, q, uc2, f);
   calcEulerFlux<double, dim>(dir, q, g);
   for (int i = 0; i < dim + 2; ++i) vp_eq("control flux consistent", f[i], g[i]);
   vp_reach("end");
}
VP_HARNESS(h_control_1) { control<1>(); }
VP_HARNESS(h_control_2) { control<2>(); }
VP_HARNESS(h_control_3) { control<3>(); }

template <int dim> void bndec()
{
   double q[dim + 2], qb[dim + 2], w[dim + 2], dir[dim], f[dim + 2], f0[dim + 2], work[dim + 2];
   conservative_state<dim>("q", q);
   conservative_state<dim>("qb", qb);
   nonzero_dir<dim>("dir", dir);
   double ent = vp_real("ent", 0, -2.0, 2.0);
   calcEntropyVars<double, dim, false>(q, w);
   double Aw[dim + 2], psi = 0;
   calcdQdWProduct<double, dim>(q, w, Aw);
   double wAw = dotp<dim + 2>(w, Aw);
   vp_assume(wAw > 0); // w != 0 since its last entry is negative; positive definiteness is C02
   calcBoundaryFluxEC<double, dim>(dir, qb, q, ent, f);
   for (int i = 0; i < dim; ++i) psi += q[i + 1] * dir[i];
   vp_eq("prescribed entropy flux is attained", dotp<dim + 2>(w, f) - psi, ent);
   // nothing is changed when the flux already has the requested entropy flux
   calcBoundaryFlux<double, dim>(dir, qb, q, work, f0);
   double cur = dotp<dim + 2>(w, f0) - psi;
   calcBoundaryFluxEC<double, dim>(dir, qb, q, cur, f);
   for (int i = 0; i < dim + 2; ++i) vp_eq("no correction when satisfied", f[i], f0[i]);
   vp_reach("end");
}
VP_HARNESS(h_bndec_1) { bndec<1>(); }
VP_HARNESS(h_bndec_2) { bndec<2>(); }
VP_HARNESS(h_bndec_3) { bndec<3>(); }

template <int dim> void farfield2()
{
   double q[dim + 2], dir[dim], f[dim + 2], g[dim + 2], work[dim + 2];
   conservative_state<dim>("q", q);
   real_vec<dim>("dir", dir);
   calcFarFieldFlux2<double, dim>(dir, q, q, work, f);
   calcEulerFlux<double, dim>(dir, q, g);
   for (int i = 0; i < dim + 2; ++i) vp_eq("far field (2) F(n,q,q) == F(n,q)", f[i], g[i]);
   vp_reach("end");
}
VP_HARNESS(h_farfield_1) { farfield2<1>(); }
VP_HARNESS(h_farfield_2) { farfield2<2>(); }
VP_HARNESS(h_farfield_3) { farfield2<3>(); }

template <int dim> void spect()
{
   double q[dim + 2], w[dim + 2], pr[dim + 2], dir[dim];
   conservative_state<dim>("q", q, pr);
   calcEntropyVars<double, dim, false>(q, w);
   double n2 = nonzero_dir<dim>("dir", dir);
   double Un = dotp<dim>(pr + 1, dir), c = std::sqrt(n2) * std::sqrt(1.4 * pr[dim + 1] / pr[0]);
   double r = calcSpectralRadius<double, dim, false>(dir, q);
   vp_eq("|u.n| + c|n|", r, std::fabs(Un) + c);
   vp_eq("same radius from entropy variables", (calcSpectralRadius<double, dim, true>(dir, w)), r);
   // Un+c and Un-c really are eigenvalues of the Euler flux Jacobian (acoustic eigenvectors)
   for (int s = -1; s <= 1; s += 2)
   {
      double cc = std::sqrt(1.4 * pr[dim + 1] / pr[0]), H = (q[dim + 1] + pr[dim + 1]) / q[0];
      Dual qd[dim + 2], dd[dim], fd[dim + 2];
      double n = std::sqrt(n2);
      double ev[dim + 2];
      ev[0] = 1;
      for (int i = 0; i < dim; ++i) { ev[i + 1] = pr[i + 1] + s * cc * dir[i] / n; dd[i] = dir[i]; }
      ev[dim + 1] = H + s * cc * Un / n;
      for (int i = 0; i < dim + 2; ++i) qd[i] = Dual(q[i], ev[i]);
      calcEulerFlux<Dual, dim>(dd, qd, fd);
      for (int i = 0; i < dim + 2; ++i) vp_eq("u.n +- c|n| are eigenvalues of dF/dq", fd[i].d, (Un + s * c) * ev[i]);
   }
   vp_reach("end");
}
VP_HARNESS(h_spect_1) { spect<1>(); }
VP_HARNESS(h_spect_2) { spect<2>(); }
VP_HARNESS(h_spect_3) { spect<3>(); }

// LPS scaling = (mean spectral radius over the rows of adj(J)) * dq/dw : symmetric, positive semi-definite
template <int dim> void lps()
{
   double q[dim + 2], w[dim + 2], pr[dim + 2], adj[dim * dim], v[dim + 2], f[dim + 2], g[dim + 2], Av[dim + 2];
   conservative_state<dim>("q", q, pr);
   calcEntropyVars<double, dim, false>(q, w);
   real_vec<dim * dim>("adj", adj);
   real_vec<dim + 2>("v", v);
   applyLPSScaling<double, dim>(adj, q, v, f);
   calcdQdWProduct<double, dim>(q, v, Av);
   double s = 0;
   for (int d = 0; d < dim; ++d)
   {
      double Un = 0, n2 = 0;
      for (int i = 0; i < dim; ++i) { Un += pr[i + 1] * adj[d * dim + i]; n2 += adj[d * dim + i] * adj[d * dim + i]; }
      s += std::fabs(Un) + std::sqrt(1.4 * pr[dim + 1] / pr[0]) * std::sqrt(n2);
   }
   vp_le("scaling factor non-negative", 0.0, s);
   for (int i = 0; i < dim + 2; ++i) vp_eq("LPS scaling = mean radius * dq/dw", f[i], s / dim * Av[i]);
   applyLPSScalingUsingEntVars<double, dim>(adj, w, v, g);
   for (int i = 0; i < dim + 2; ++i) vp_eq("LPS scaling same in entropy variables", g[i], f[i]);
   vp_reach("end");
}
VP_HARNESS(h_lps_1) { lps<1>(); }
VP_HARNESS(h_lps_2) { lps<2>(); }
VP_HARNESS(h_lps_3) { lps<3>(); }

// free stream: density 1, sound speed 1, speed = Mach number at the angle of attack
template <int dim> void freestream()
{
   double mach = vp_real("mach", 0, 0.0, 2.0), aoa = vp_real("aoa", 0, -1.0, 1.0);
   int iroll = vp_choice("iroll", 0, dim - 1), ipitch = vp_choice("ipitch", 0, dim - 1);
   vp_assume(dim == 1 || iroll != ipitch);
   double q[dim + 2];
   getFreeStreamQ<double, dim>(mach, aoa, iroll, ipitch, q);
   double p = pressure<double, dim>(q), m2 = 0;
   vp_eq("unit density", q[0], 1.0);
   vp_eq("unit sound speed", 1.4 * p / q[0], 1.0);
   for (int i = 0; i < dim; ++i)
   {
      m2 += q[i + 1] * q[i + 1];
      double e = dim == 1 ? mach : i == iroll ? mach * std::cos(aoa) : i == ipitch ? mach * std::sin(aoa) : 0.0;
      vp_eq("velocity along the angle of attack", q[i + 1], e);
   }
   vp_eq("speed is the Mach number", m2, mach * mach);
   vp_reach("end");
}
VP_HARNESS(h_freestream_1) { freestream<1>(); }
VP_HARNESS(h_freestream_2) { freestream<2>(); }
VP_HARNESS(h_freestream_3) { freestream<3>(); }
