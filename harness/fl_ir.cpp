// Contracts: Ismail-Roe fluxes. logavg is used through its contract (proved in fl_logavg).
// VP-USE h_irec.* : _ZN4miso6logavgIdEET_RKS1_S3_ => contract_logavg
// VP-USE h_irdiss.* : _ZN4miso6logavgIdEET_RKS1_S3_ => contract_logavg
// VP-USE h_irvar.* : _ZN4miso6logavgIdEET_RKS1_S3_ => contract_logavg_sym
// VP-USE h_irconsist.* : _ZN4miso6logavgIdEET_RKS1_S3_ => contract_logavg_eq
#include "euler_fluxes.hpp"
#include "vp_harness.hpp"
using namespace miso;
#include "fluid_state.hpp"

#ifndef VP_NATIVE
VP_CONTRACT(contract_logavg) double contract_logavg(const double &a, const double &b)
{
   vp_lt("requires logavg: a > 0", 0.0, a);
   vp_lt("requires logavg: b > 0", 0.0, b);
   double ab[2] = {a + b, a * b}; // a symmetric function of a and b
   double r = vp_fn("logavg_sp", 2, ab);
   vp_assume(r > 0);
   vp_assume(r * (std::log(a) - std::log(b)) == a - b);
   return r;
}
VP_CONTRACT(contract_logavg_sym) double contract_logavg_sym(const double &a, const double &b)
{
   vp_lt("requires logavg: a > 0", 0.0, a);
   vp_lt("requires logavg: b > 0", 0.0, b);
   double ab[2] = {a + b, a * b}; // a symmetric function of a and b
   double r = vp_fn("logavg_sp", 2, ab);
   vp_assume(r > 0);
   return r;
}
VP_CONTRACT(contract_logavg_eq) double contract_logavg_eq(const double &a, const double &b)
{
   vp_lt("requires logavg: a > 0", 0.0, a);
   vp_eq("requires logavg: a == b", a, b);
   return a;
}
#endif

template <int dim> void ec(int which)
{
   double qL[dim + 2], qR[dim + 2], wL[dim + 2], wR[dim + 2], dir[dim], f[dim + 2];
   conservative_state_z<dim>("qL", qL);
   conservative_state_z<dim>("qR", qR);
   calcEntropyVars<double, dim, false>(qL, wL);
   calcEntropyVars<double, dim, false>(qR, wR);
   if (which == 0)
   {
      real_vec<dim>("dir", dir);
      calcIsmailRoeFaceFlux<double, dim>(dir, qL, qR, f);
   }
   else
   {
      int di = vp_choice("di", 0, dim - 1);
      for (int i = 0; i < dim; ++i) dir[i] = i == di;
      calcIsmailRoeFlux<double, dim>(di, qL, qR, f);
   }
   double lhs = 0, rhs = 0;
   for (int i = 0; i < dim + 2; ++i) lhs += (wL[i] - wR[i]) * f[i];
   for (int i = 0; i < dim; ++i) rhs += (qL[i + 1] - qR[i + 1]) * dir[i];
   vp_eq("(wL-wR).f == psiL-psiR", lhs, rhs);
   vp_reach("end");
}
VP_HARNESS(h_irec_face_1) { ec<1>(0); }
VP_HARNESS(h_irec_face_2) { ec<2>(0); }
VP_HARNESS(h_irec_face_3) { ec<3>(0); }
VP_HARNESS(h_irec_coord_1) { ec<1>(1); }
VP_HARNESS(h_irec_coord_2) { ec<2>(1); }
VP_HARNESS(h_irec_coord_3) { ec<3>(1); }

// symmetric, linear in the direction, consistent: on the real logavg
template <int dim> void sym()
{
   double qL[dim + 2], qR[dim + 2], dir[dim], ndir[dim], f[dim + 2], g[dim + 2], h[dim + 2];
   conservative_state_z<dim>("qL", qL);
   conservative_state_z<dim>("qR", qR);
   real_vec<dim>("dir", dir);
   for (int i = 0; i < dim; ++i) ndir[i] = -dir[i];
   calcIsmailRoeFaceFlux<double, dim>(dir, qL, qR, f);
   calcIsmailRoeFaceFlux<double, dim>(dir, qR, qL, g);
   calcIsmailRoeFaceFlux<double, dim>(ndir, qR, qL, h);
   double s[dim + 2], c[dim + 2];
   for (int i = 0; i < dim + 2; ++i) s[i] = 0;
   for (int d = 0; d < dim; ++d)
   {
      calcIsmailRoeFlux<double, dim>(d, qL, qR, c);
      for (int i = 0; i < dim + 2; ++i) s[i] += dir[d] * c[i];
   }
   for (int i = 0; i < dim + 2; ++i)
   {
      vp_eq("F(n,qL,qR) == F(n,qR,qL)", f[i], g[i]);
      vp_eq("F(n,qL,qR) == -F(-n,qR,qL)", f[i], -h[i]);
      vp_eq("F(n) == sum n_d F_d", f[i], s[i]);
   }
   vp_reach("end");
}
VP_HARNESS(h_irsym_1) { sym<1>(); }
VP_HARNESS(h_irsym_2) { sym<2>(); }
VP_HARNESS(h_irsym_3) { sym<3>(); }

template <int dim> void consist()
{
   double q[dim + 2], w[dim + 2], dir[dim], f[dim + 2], g[dim + 2];
   conservative_state_z<dim>("q", q);
   calcEntropyVars<double, dim, false>(q, w);
   real_vec<dim>("dir", dir);
   calcEulerFlux<double, dim>(dir, q, g);
   calcIsmailRoeFaceFlux<double, dim>(dir, q, q, f);
   for (int i = 0; i < dim + 2; ++i) vp_eq("IR F(n,q,q) == F(n,q)", f[i], g[i]);
   calcIsmailRoeFaceFluxUsingEntVars<double, dim>(dir, w, w, f);
   for (int i = 0; i < dim + 2; ++i) vp_eq("IR(w) F(n,q,q) == F(n,q)", f[i], g[i]);
   double dc = vp_real("dc", 0, 0.0, 2.0);
   calcIsmailRoeFaceFluxWithDiss<double, dim>(dir, dc, q, q, f);
   for (int i = 0; i < dim + 2; ++i) vp_eq("IR+diss F(n,q,q) == F(n,q)", f[i], g[i]);
   calcIsmailRoeFaceFluxWithDissUsingEntVars<double, dim>(dir, dc, w, w, f);
   for (int i = 0; i < dim + 2; ++i) vp_eq("IR+diss(w) F(n,q,q) == F(n,q)", f[i], g[i]);
   int di = vp_choice("di", 0, dim - 1);
   for (int i = 0; i < dim; ++i) dir[i] = i == di;
   calcEulerFlux<double, dim>(dir, q, g);
   calcIsmailRoeFlux<double, dim>(di, q, q, f);
   for (int i = 0; i < dim + 2; ++i) vp_eq("IR F_d(q,q) == F_d(q)", f[i], g[i]);
   calcIsmailRoeFluxUsingEntVars<double, dim>(di, w, w, f);
   for (int i = 0; i < dim + 2; ++i) vp_eq("IR(w) F_d(q,q) == F_d(q)", f[i], g[i]);
   vp_reach("end");
}
VP_HARNESS(h_irconsist_1) { consist<1>(); }
VP_HARNESS(h_irconsist_2) { consist<2>(); }
VP_HARNESS(h_irconsist_3) { consist<3>(); }

// entropy-variable and conservative-variable versions are the same function
template <int dim> void vars()
{
   double qL[dim + 2], qR[dim + 2], wL[dim + 2], wR[dim + 2], dir[dim], f[dim + 2], g[dim + 2];
   conservative_state_z<dim>("qL", qL);
   conservative_state_z<dim>("qR", qR);
   calcEntropyVars<double, dim, false>(qL, wL);
   calcEntropyVars<double, dim, false>(qR, wR);
   real_vec<dim>("dir", dir);
   calcIsmailRoeFaceFlux<double, dim>(dir, qL, qR, f);
   calcIsmailRoeFaceFluxUsingEntVars<double, dim>(dir, wL, wR, g);
   for (int i = 0; i < dim + 2; ++i) vp_eq("face flux same in entropy variables", g[i], f[i]);
   double dc = vp_real("dc", 0, 0.0, 2.0);
   calcIsmailRoeFaceFluxWithDiss<double, dim>(dir, dc, qL, qR, f);
   calcIsmailRoeFaceFluxWithDissUsingEntVars<double, dim>(dir, dc, wL, wR, g);
   for (int i = 0; i < dim + 2; ++i) vp_eq("dissipative flux same in entropy variables", g[i], f[i]);
   int di = vp_choice("di", 0, dim - 1);
   calcIsmailRoeFlux<double, dim>(di, qL, qR, f);
   calcIsmailRoeFluxUsingEntVars<double, dim>(di, wL, wR, g);
   for (int i = 0; i < dim + 2; ++i) vp_eq("coordinate flux same in entropy variables", g[i], f[i]);
   vp_reach("end");
}
VP_HARNESS(h_irvar_1) { vars<1>(); }
VP_HARNESS(h_irvar_2) { vars<2>(); }
VP_HARNESS(h_irvar_3) { vars<3>(); }

// dissipation: exactly coeff * spectral radius(q_ave) * a positive-definite form of the jump
template <int dim> void diss()
{
   double qL[dim + 2], qR[dim + 2], wL[dim + 2], wR[dim + 2], dir[dim], ndir[dim], f[dim + 2], g[dim + 2], qa[dim + 2], pL[dim + 2], pR[dim + 2];
   conservative_state_z<dim>("qL", qL, pL);
   conservative_state_z<dim>("qR", qR, pR);
   calcEntropyVars<double, dim, false>(qL, wL);
   calcEntropyVars<double, dim, false>(qR, wR);
   real_vec<dim>("dir", dir);
   double dc = vp_real("dc", 0, 0.0, 2.0);
   vp_assume(dc >= 0);
   for (int i = 0; i < dim; ++i) ndir[i] = -dir[i];
   calcIsmailRoeFaceFluxWithDiss<double, dim>(dir, dc, qL, qR, f);
   double v[dim + 2], lhs = 0;
   for (int i = 0; i < dim + 2; ++i)
   {
      v[i] = wL[i] - wR[i];
      lhs += v[i] * f[i];
      qa[i] = 0.5 * (qL[i] + qR[i]);
   }
   for (int i = 0; i < dim; ++i) lhs -= (qL[i + 1] - qR[i + 1]) * dir[i];
   // the averaged state is admissible
   double pa = pressure<double, dim>(qa), du2 = 0;
   for (int i = 0; i < dim; ++i) du2 += (pL[i + 1] - pR[i + 1]) * (pL[i + 1] - pR[i + 1]);
   double pa2 = 0.5 * (pL[dim + 1] + pR[dim + 1]) + 0.1 * pL[0] * pR[0] / (0.5 * (pL[0] + pR[0])) * du2 * 0.5;
   vp_eq("averaged state has positive pressure", pa, pa2);
   double rho = qa[0];
   double l = v[0] + qa[dim + 1] / rho * v[dim + 1], s = 0;
   for (int i = 0; i < dim; ++i)
   {
      l += qa[i + 1] / rho * v[i + 1];
      double m = v[i + 1] + qa[i + 1] / rho * v[dim + 1];
      s += m * m;
   }
   double form = rho * l * l + pa * s + pa * pa / (0.4 * rho) * v[dim + 1] * v[dim + 1];
   double Un = 0, n2 = 0;
   for (int i = 0; i < dim; ++i) { Un += qa[i + 1] / rho * dir[i]; n2 += dir[i] * dir[i]; }
   double lam = std::fabs(Un) + std::sqrt(1.4 * pa / rho) * std::sqrt(n2);
   vp_eq("entropy production is coeff*radius*(positive form of the jump)", lhs, dc * lam * form);
   calcIsmailRoeFaceFluxWithDiss<double, dim>(ndir, dc, qR, qL, g);
   for (int i = 0; i < dim + 2; ++i) vp_eq("F(n,qL,qR) == -F(-n,qR,qL)", f[i], -g[i]);
   vp_reach("end");
}
VP_HARNESS(h_irdiss_1) { diss<1>(); }
VP_HARNESS(h_irdiss_2) { diss<2>(); }
VP_HARNESS(h_irdiss_3) { diss<3>(); }
