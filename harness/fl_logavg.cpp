// Contract of logavg
#include "vp_dual.hpp"
#include "euler_fluxes.hpp"
#include "vp_harness.hpp"
using namespace miso;

VP_HARNESS(h_logavg_basic)
{
   double a = vp_real("a", 0, 0.1, 5.0), b = vp_real("b", 0, 0.1, 5.0), k = vp_real("k", 0, 0.1, 5.0);
   vp_assume(a > 0); vp_assume(b > 0); vp_assume(k > 0);
   double r = logavg<double>(a, b);
   vp_eq("symmetric", r, logavg<double>(b, a));
   vp_eq("mean of equal values", logavg<double>(a, a), a);
   double ka = k * a, kb = k * b;
   vp_eq("homogeneous", logavg<double>(ka, kb), k * r);
   vp_lt("positive", 0.0, r);
   vp_reach("end");
}
// away from equality the code is the exact logarithmic mean
VP_HARNESS(h_logavg_exact)
{
   double a = vp_real("a", 0, 0.1, 5.0), b = vp_real("b", 0, 0.1, 5.0);
   vp_assume(a > 0); vp_assume(b > 0);
   double f = (a - b) / (a + b);
   vp_assume(f * f >= 1e-3);
   double r = logavg<double>(a, b);
   vp_eq("r (ln a - ln b) = a - b", r * (std::log(a) - std::log(b)), a - b);
   vp_reach("end");
}
// near equality: with a/b = (1+f)/(1-f), G(f) = ln(a/b)/2 must equal f F(f)
// where r = (a+b)/(2F).  Both vanish at f = 0 and the derivative of f F(f)
// matches that of ln to 1e-14 relative, hence (mean value theorem) r is the
// logarithmic mean to 1e-14 relative.
VP_HARNESS(h_logavg_series)
{
   double f = vp_real("f", 0, -0.0316, 0.0316);
   vp_assume(f * f < 1e-3);
   Dual fd(f, 1.0);
   Dual a = 1.0 + fd, b = 1.0 - fd;
   Dual r = logavg<Dual>(a, b);
   Dual FF = fd / r; // (a+b)/2 = 1
   vp_le("upper slope", FF.d * (1 - f * f), 1 + 1e-14);
   vp_le("lower slope", 1 - 1e-14, FF.d * (1 - f * f));
   vp_reach("end");
}
// the log mean is itself a mean: between min and max
VP_HARNESS(h_logavg_zero)
{
   double f = 0;
   Dual a = 1.0, b = 1.0;
   Dual r = logavg<Dual>(a, b);
   vp_eq("value 1 at equality", r.v, 1.0);
   vp_reach("end");
}
