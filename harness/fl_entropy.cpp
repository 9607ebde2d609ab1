// Contracts: calcEntropyVars, calcConservativeVars, entropy, pressure, calcdQdWProduct
#include "vp_dual.hpp"
#include "euler_fluxes.hpp"
#include "vp_harness.hpp"
using namespace miso;
#include "fluid_state.hpp"

template <int dim> void roundtrip()
{
   double q[dim + 2], w[dim + 2], q2[dim + 2], pr[dim + 2];
   conservative_state<dim>("q", q, pr);
   vp_eq("pressure", pressure<double, dim>(q), pr[dim + 1]);
   calcEntropyVars<double, dim, false>(q, w);
   calcConservativeVars<double, dim, true>(w, q2);
   for (int i = 0; i < dim + 2; ++i) vp_eq("q(w(q)) == q", q2[i], q[i]);
   // the two identity instantiations
   double a[dim + 2];
   calcEntropyVars<double, dim, true>(w, a);
   for (int i = 0; i < dim + 2; ++i) vp_eq("entropy state kept as is", a[i], w[i]);
   calcConservativeVars<double, dim, false>(q, a);
   for (int i = 0; i < dim + 2; ++i) vp_eq("conservative state kept as is", a[i], q[i]);
   vp_reach("end");
}
VP_HARNESS(h_roundtrip_1) { roundtrip<1>(); }
VP_HARNESS(h_roundtrip_2) { roundtrip<2>(); }
VP_HARNESS(h_roundtrip_3) { roundtrip<3>(); }

template <int dim> void roundtrip_w()
{
   double w[dim + 2], q[dim + 2], w2[dim + 2];
   real_vec<dim + 2>("w", w);
   vp_assume(w[dim + 1] < 0);
   if (!vp_symbolic()) { vp_assume(w[dim + 1] < -0.3); }   // (exp underflows in doubles)
   calcConservativeVars<double, dim, true>(w, q);
   vp_lt("density positive", 0.0, q[0]);
   vp_lt("pressure positive", 0.0, pressure<double, dim>(q));
   calcEntropyVars<double, dim, false>(q, w2);
   for (int i = 0; i < dim + 2; ++i) vp_eq("w(q(w)) == w", w2[i], w[i]);
   vp_reach("end");
}
VP_HARNESS(h_roundtripw_1) { roundtrip_w<1>(); }
VP_HARNESS(h_roundtripw_2) { roundtrip_w<2>(); }
VP_HARNESS(h_roundtripw_3) { roundtrip_w<3>(); }

template <int dim> void entropy_value()
{
   double q[dim + 2], w[dim + 2], pr[dim + 2];
   conservative_state<dim>("q", q, pr);
   calcEntropyVars<double, dim, false>(q, w);
   double S = -pr[0] * (std::log(pr[dim + 1]) - 1.4 * std::log(pr[0])) / 0.4;
   vp_eq("S = -rho s/(gamma-1)", entropy<double, dim, false>(q), S);
   vp_eq("S from entropy variables", entropy<double, dim, true>(w), S);
   vp_reach("end");
}
VP_HARNESS(h_entropyval_1) { entropy_value<1>(); }
VP_HARNESS(h_entropyval_2) { entropy_value<2>(); }
VP_HARNESS(h_entropyval_3) { entropy_value<3>(); }

template <int dim> void gradient()
{
   double q[dim + 2], dq[dim + 2], w[dim + 2];
   conservative_state<dim>("q", q);
   real_vec<dim + 2>("dq", dq);
   Dual qd[dim + 2], wd[dim + 2];
   for (int i = 0; i < dim + 2; ++i) qd[i] = Dual(q[i], dq[i]);
   Dual S = entropy<Dual, dim, false>(qd);
   calcEntropyVars<double, dim, false>(q, w);
   double g = 0;
   for (int i = 0; i < dim + 2; ++i) g += w[i] * dq[i];
   vp_eq("dS = w . dq", S.d, g);
   calcEntropyVars<Dual, dim, false>(qd, wd);
   double dw[dim + 2], r[dim + 2];
   for (int i = 0; i < dim + 2; ++i)
   {
      vp_eq("w value", wd[i].v, w[i]);
      dw[i] = wd[i].d;
   }
   calcdQdWProduct<double, dim>(q, dw, r);
   for (int i = 0; i < dim + 2; ++i) vp_eq("(dq/dw)(dw/dq) dq == dq", r[i], dq[i]);
   vp_reach("end");
}
VP_HARNESS(h_gradient_1) { gradient<1>(); }
VP_HARNESS(h_gradient_2) { gradient<2>(); }
VP_HARNESS(h_gradient_3) { gradient<3>(); }

template <int dim> void hess()
{
   double q[dim + 2], u[dim + 2], v[dim + 2], Au[dim + 2], Av[dim + 2], pr[dim + 2];
   conservative_state<dim>("q", q, pr);
   real_vec<dim + 2>("u", u);
   real_vec<dim + 2>("v", v);
   calcdQdWProduct<double, dim>(q, u, Au);
   calcdQdWProduct<double, dim>(q, v, Av);
   double a = 0, b = 0, vAv = 0;
   for (int i = 0; i < dim + 2; ++i) { a += v[i] * Au[i]; b += u[i] * Av[i]; vAv += v[i] * Av[i]; }
   vp_eq("v.A u == u.A v", a, b);
   double rho = pr[0], p = pr[dim + 1];
   double l = v[0] + q[dim + 1] / rho * v[dim + 1], s = 0;
   for (int i = 0; i < dim; ++i)
   {
      l += pr[i + 1] * v[i + 1];
      double m = v[i + 1] + pr[i + 1] * v[dim + 1];
      s += m * m;
   }
   // strictly positive unless v = 0
   vp_eq("v.A v is the positive-definite sum of squares", vAv, rho * l * l + p * s + p * p / (0.4 * rho) * v[dim + 1] * v[dim + 1]);
   vp_reach("end");
}
VP_HARNESS(h_hess_1) { hess<1>(); }
VP_HARNESS(h_hess_2) { hess<2>(); }
VP_HARNESS(h_hess_3) { hess<3>(); }
