// Contracts: calcEulerFlux, calcRoeFaceFlux, calcBoundaryFlux, calcFarFieldFlux
#include "vp_dual.hpp"
#include "euler_fluxes.hpp"
#include "vp_harness.hpp"
using namespace miso;
#include "fluid_state.hpp"

// y = (d F_n/dq at qs) x by forward differentiation of the Euler flux itself
template <int dim> void jac_times(const double *dir, const double *qs, const double *x, double *y)
{
   Dual q[dim + 2], n[dim], f[dim + 2];
   for (int i = 0; i < dim + 2; ++i) q[i] = Dual(qs[i], x[i]);
   for (int i = 0; i < dim; ++i) n[i] = dir[i];
   calcEulerFlux<Dual, dim>(n, q, f);
   for (int i = 0; i < dim + 2; ++i) y[i] = f[i].d;
}
// g(A) x for the flux Jacobian A at qs (eigenvalues Un, Un+-c), where g takes the
// values g1,g2,g3 on Un+c, Un-c, Un:  Lagrange interpolation, A has no other eigenvalue
template <int dim>
void matfun(const double *dir, const double *qs, double Un, double c, double g1, double g2, double g3, const double *x, double *y)
{
   double b[dim + 2], d[dim + 2];
   jac_times<dim>(dir, qs, x, b);
   for (int i = 0; i < dim + 2; ++i) b[i] -= Un * x[i];
   jac_times<dim>(dir, qs, b, d);
   for (int i = 0; i < dim + 2; ++i) d[i] -= Un * b[i];
   for (int i = 0; i < dim + 2; ++i) y[i] = g3 * x[i] + (g1 - g2) / (2 * c) * b[i] + (0.5 * (g1 + g2) - g3) / (c * c) * d[i];
}
// density parameterised by its square root s > 0
template <int dim> void state_s(const char *name, double *q, double *pr)
{
   double s = vp_real(name, 0, 0.4, 2.0);
   vp_assume(s > 0);
   double p = vp_real(name, dim + 1, 0.2, 3.0);
   vp_assume(p > 0);
   double ke = 0;
   q[0] = s * s;
   for (int i = 0; i < dim; ++i)
   {
      pr[i + 1] = vp_real(name, i + 1, -2.0, 2.0);
      q[i + 1] = q[0] * pr[i + 1];
      ke += pr[i + 1] * pr[i + 1];
   }
   q[dim + 1] = 2.5 * p + 0.5 * q[0] * ke;
   pr[0] = s; pr[dim + 1] = p;
}
// Roe average as a state with unit density
template <int dim> double roe_average(const double *qL, const double *pL, const double *qR, const double *pR, const double *dir, double *qs, double &Un)
{
   double sum = pL[0] + pR[0], ke = 0, H;
   Un = 0;
   qs[0] = 1;
   for (int i = 0; i < dim; ++i)
   {
      qs[i + 1] = (pL[0] * pL[i + 1] + pR[0] * pR[i + 1]) / sum;
      ke += 0.5 * qs[i + 1] * qs[i + 1];
      Un += qs[i + 1] * dir[i];
   }
   double HL = (qL[dim + 1] + pL[dim + 1]) / qL[0], HR = (qR[dim + 1] + pR[dim + 1]) / qR[0];
   H = (pL[0] * HL + pR[0] * HR) / sum;
   double a2 = 0.4 * (H - ke); // squared sound speed, = 1.4 p at unit density
   qs[dim + 1] = a2 / 1.4 * 2.5 + ke;
   return a2;
}
template <int dim> void roe_spec()
{
   double qL[dim + 2], qR[dim + 2], pL[dim + 2], pR[dim + 2], dir[dim], f[dim + 2];
   state_s<dim>("qL", qL, pL);
   state_s<dim>("qR", qR, pR);
   double n2 = nonzero_dir<dim>("dir", dir);
   double qs[dim + 2], Un, a2 = roe_average<dim>(qL, pL, qR, pR, dir, qs, Un);
   double c = std::sqrt(n2) * std::sqrt(a2);
   double rad = std::fabs(Un) + c;
   double l1 = 0.5 * std::max(std::fabs(Un + c), 0.025 * rad), l2 = 0.5 * std::max(std::fabs(Un - c), 0.025 * rad), l3 = 0.5 * std::max(std::fabs(Un), 0.025 * rad);
   calcRoeFaceFlux<double, dim>(dir, qL, qR, f);
   double FL[dim + 2], FR[dim + 2], dq[dim + 2], D[dim + 2];
   calcEulerFlux<double, dim>(dir, qL, FL);
   calcEulerFlux<double, dim>(dir, qR, FR);
   for (int i = 0; i < dim + 2; ++i) dq[i] = qL[i] - qR[i];
   matfun<dim>(dir, qs, Un, c, l1, l2, l3, dq, D);
   for (int i = 0; i < dim + 2; ++i) vp_eq("Roe flux = average + |A(roe)| jump / 2", f[i], 0.5 * (FL[i] + FR[i]) + D[i]);
   vp_reach("end");
}
VP_HARNESS(h_roespec_1) { roe_spec<1>(); }
VP_HARNESS(h_roespec_2) { roe_spec<2>(); }
VP_HARNESS(h_roespec_3) { roe_spec<3>(); }

// fully supersonic: pure upwinding (this is Roe's linearisation A (qL-qR) = F(qL)-F(qR))
template <int dim> void roe_upwind()
{
   double qL[dim + 2], qR[dim + 2], pL[dim + 2], pR[dim + 2], dir[dim], f[dim + 2], g[dim + 2];
   state_s<dim>("qL", qL, pL);
   state_s<dim>("qR", qR, pR);
   double n2 = nonzero_dir<dim>("dir", dir);
   double qs[dim + 2], Un, a2 = roe_average<dim>(qL, pL, qR, pR, dir, qs, Un);
   double c = std::sqrt(n2) * std::sqrt(a2);
   // the flow is supersonic when the second eigenvalue clears the entropy fix
   if (vp_choice("side", 0, 1) == 0)
   {
      vp_assume(Un > 0);
      vp_assume(Un - c > 0);
      vp_assume(Un + c > 0);
      vp_assume(Un - c >= 0.025 * (Un + c));
      vp_assume(Un >= 0.025 * (Un + c)); // implied
      vp_assume(Un + c >= 0.025 * (Un + c)); // implied
      calcEulerFlux<double, dim>(dir, qL, g);
   }
   else
   {
      vp_assume(Un < 0);
      vp_assume(Un + c < 0);
      vp_assume(Un - c < 0);
      vp_assume(-Un - c >= 0.025 * (c - Un));
      vp_assume(-Un >= 0.025 * (c - Un)); // implied

      calcEulerFlux<double, dim>(dir, qR, g);
   }
   calcRoeFaceFlux<double, dim>(dir, qL, qR, f);
   for (int i = 0; i < dim + 2; ++i) vp_eq("supersonic Roe flux is the upwind flux", f[i], g[i]);
   vp_reach("end");
}
VP_HARNESS(h_roeupwind_1) { roe_upwind<1>(); }
VP_HARNESS(h_roeupwind_2) { roe_upwind<2>(); }
VP_HARNESS(h_roeupwind_3) { roe_upwind<3>(); }

template <int dim> void roe_cons()
{
   double qL[dim + 2], qR[dim + 2], dir[dim], ndir[dim], f[dim + 2], g[dim + 2];
   conservative_state<dim>("qL", qL);
   conservative_state<dim>("qR", qR);
   nonzero_dir<dim>("dir", dir);
   for (int i = 0; i < dim; ++i) ndir[i] = -dir[i];
   calcRoeFaceFlux<double, dim>(dir, qL, qR, f);
   calcRoeFaceFlux<double, dim>(ndir, qR, qL, g);
   for (int i = 0; i < dim + 2; ++i) vp_eq("F(n,qL,qR) == -F(-n,qR,qL)", f[i], -g[i]);
   vp_reach("end");
}
VP_HARNESS(h_roecons_1) { roe_cons<1>(); }
VP_HARNESS(h_roecons_2) { roe_cons<2>(); }
VP_HARNESS(h_roecons_3) { roe_cons<3>(); }

template <int dim> void consist()
{
   double q[dim + 2], w[dim + 2], dir[dim], f[dim + 2], g[dim + 2], work[dim + 2], pr[dim + 2];
   conservative_state<dim>("q", q, pr);
   nonzero_dir<dim>("dir", dir);
   calcEulerFlux<double, dim>(dir, q, g);
   // the Euler flux itself
   double U = 0;
   for (int i = 0; i < dim; ++i) U += pr[i + 1] * dir[i];
   vp_eq("mass flux", g[0], pr[0] * U);
   for (int i = 0; i < dim; ++i) vp_eq("momentum flux", g[i + 1], pr[0] * pr[i + 1] * U + pr[dim + 1] * dir[i]);
   vp_eq("energy flux", g[dim + 1], (q[dim + 1] + pr[dim + 1]) * U);
   calcRoeFaceFlux<double, dim>(dir, q, q, f);
   for (int i = 0; i < dim + 2; ++i) vp_eq("Roe F(n,q,q) == F(n,q)", f[i], g[i]);
   calcBoundaryFlux<double, dim>(dir, q, q, work, f);
   for (int i = 0; i < dim + 2; ++i) vp_eq("boundary F(n,q,q) == F(n,q)", f[i], g[i]);
   calcEntropyVars<double, dim, false>(q, w);
   calcFarFieldFlux<double, dim, false>(dir, q, q, work, f);
   for (int i = 0; i < dim + 2; ++i) vp_eq("far field F(n,q,q) == F(n,q)", f[i], g[i]);
   calcFarFieldFlux<double, dim, true>(dir, q, w, work, f);
   for (int i = 0; i < dim + 2; ++i) vp_eq("far field(w) F(n,q,q) == F(n,q)", f[i], g[i]);
   vp_reach("end");
}
VP_HARNESS(h_roeconsist_1) { consist<1>(); }
VP_HARNESS(h_roeconsist_2) { consist<2>(); }
VP_HARNESS(h_roeconsist_3) { consist<3>(); }

// characteristic boundary flux: F(q) - A^-(qbnd) (q - qbnd)
template <int dim> void bnd_spec()
{
   double qb[dim + 2], q[dim + 2], pb[dim + 2], dir[dim], f[dim + 2], work[dim + 2];
   conservative_state<dim>("qb", qb, pb);
   conservative_state<dim>("q", q);
   double n2 = nonzero_dir<dim>("dir", dir);
   double Un = 0;
   for (int i = 0; i < dim; ++i) Un += pb[i + 1] * dir[i];
   double c = std::sqrt(n2) * std::sqrt(1.4 * pb[dim + 1] / pb[0]);
   double l1 = 0.5 * (std::fabs(Un + c) - (Un + c)), l2 = 0.5 * (std::fabs(Un - c) - (Un - c)), l3 = 0.5 * (std::fabs(Un) - Un);
   calcBoundaryFlux<double, dim>(dir, qb, q, work, f);
   double F[dim + 2], dq[dim + 2], D[dim + 2];
   calcEulerFlux<double, dim>(dir, q, F);
   for (int i = 0; i < dim + 2; ++i) dq[i] = q[i] - qb[i];
   matfun<dim>(dir, qb, Un, c, l1, l2, l3, dq, D);
   for (int i = 0; i < dim + 2; ++i) vp_eq("boundary flux = F(q) - A^-(qbnd)(q-qbnd)", f[i], F[i] + D[i]);
   double g[dim + 2], w[dim + 2];
   calcFarFieldFlux<double, dim, false>(dir, qb, q, work, g);
   for (int i = 0; i < dim + 2; ++i) vp_eq("far-field flux is the boundary flux", g[i], f[i]);
   calcEntropyVars<double, dim, false>(q, w);
   calcFarFieldFlux<double, dim, true>(dir, qb, w, work, g);
   for (int i = 0; i < dim + 2; ++i) vp_eq("far-field flux from entropy variables", g[i], f[i]);
   vp_reach("end");
}
VP_HARNESS(h_bndspec_1) { bnd_spec<1>(); }
VP_HARNESS(h_bndspec_2) { bnd_spec<2>(); }
VP_HARNESS(h_bndspec_3) { bnd_spec<3>(); }

// supersonic outflow takes the interior flux
template <int dim> void bnd_out()
{
   double qb[dim + 2], q[dim + 2], pb[dim + 2], dir[dim], f[dim + 2], F[dim + 2], work[dim + 2];
   conservative_state<dim>("qb", qb, pb);
   conservative_state<dim>("q", q);
   double n2 = nonzero_dir<dim>("dir", dir);
   double Un = 0;
   for (int i = 0; i < dim; ++i) Un += pb[i + 1] * dir[i];
   double c = std::sqrt(n2) * std::sqrt(1.4 * pb[dim + 1] / pb[0]);
   vp_assume(Un > 0);
   vp_assume(Un - c > 0);
   vp_assume(Un + c > 0); // implied
   calcBoundaryFlux<double, dim>(dir, qb, q, work, f);
   calcEulerFlux<double, dim>(dir, q, F);
   for (int i = 0; i < dim + 2; ++i) vp_eq("supersonic outflow uses the interior flux", f[i], F[i]);
   vp_reach("end");
}
VP_HARNESS(h_bndout_1) { bnd_out<1>(); }
VP_HARNESS(h_bndout_2) { bnd_out<2>(); }
VP_HARNESS(h_bndout_3) { bnd_out<3>(); }
