// d/dx_i of a scalar function of x computed by the real code.  In the verifier:
// the exact symbolic derivative of the expression the code computes.  In the
// native replay: Richardson-extrapolated central differences.
#ifndef VP_DIFF_HPP
#define VP_DIFF_HPP
#include "vp.hpp"
template <class F> double vp_d(F f, double *x, int i)
{
   if (vp_symbolic()) return vp_diff(f(x), x[i]);
   double x0 = x[i], h = 1e-3, d[3];
   for (int k = 0; k < 3; ++k)
   {
      x[i] = x0 + h; double a = f(x);
      x[i] = x0 - h; double b = f(x);
      d[k] = (a - b) / (2 * h);
      h *= 0.5;
   }
   x[i] = x0;
   double e0 = (4 * d[1] - d[0]) / 3, e1 = (4 * d[2] - d[1]) / 3;
   return (16 * e1 - e0) / 15;
}
#endif
