// VP-OPT terminate = ^h_ls_search
// VP-OPT maxpaths = 6000
// VP-INV ^h_ls_search : inv_ls
// Backtracking line search of the relaxed Newton method (common/linesearch.cpp).
#include "linesearch.cpp"
#include "vp_harness.hpp"

// ghost state of the merit function: how often and where it was evaluated
static double g_arg, g_val, g_a0, g_lo, g_hi;
static long g_n;

static double g_phi0, g_dphi0, g_mu;
static bool decrease(double a, double f) { return f <= g_phi0 + g_mu * a * g_dphi0; }
struct Merit
{
   double operator()(double a) const
   {
      if (g_n == 0) { vp_eq("first trial is the full step", a, g_a0); }
      else
      {
         vp_le("a trial shrinks by at most rho_lo", g_lo * g_arg, a);
         vp_le("a trial shrinks at least by rho_hi", a, g_hi * g_arg);
         vp_true("only rejected steps are refined", !decrease(g_arg, g_val));
      }
      double f = vp_fn("merit", 1, &a);
      g_arg = a; g_val = f; g_n = g_n + 1;
      return f;
   }
};
extern "C" void inv_ls()
{
   vp_cand("step within (0, full]", g_arg > 0.0);
   vp_cand("step at most full", g_arg <= g_a0);
   vp_cand("evaluated", g_n >= 1);
}
static miso::BacktrackingLineSearch make()
{
   miso::BacktrackingLineSearch ls;
   ls.mu = vp_real("mu", -1, 1e-6, 0.5);
   ls.rho_lo = vp_real("rho_lo", -1, 0.01, 0.5);
   ls.rho_hi = vp_real("rho_hi", -1, 0.5, 0.99);
   vp_assume(ls.mu > 0.0); vp_assume(ls.mu < 1.0);
   vp_assume(ls.rho_lo > 0.0); vp_assume(ls.rho_lo <= ls.rho_hi); vp_assume(ls.rho_hi < 1.0);
   g_lo = ls.rho_lo; g_hi = ls.rho_hi; g_mu = ls.mu;
   ls.max_iter = vp_int("max_iter", 0, 1000000);
   ls.interp_order = vp_choice("order", 2, 3);
   return ls;
}
VP_HARNESS(h_ls_search)
{
   miso::BacktrackingLineSearch ls = make();
   double phi0 = vp_real("phi0", -1, 0.1, 5.0), dphi0 = vp_real("dphi0", -1, -5.0, -0.1), alpha = vp_real("alpha", -1, 0.1, 3.0);
   vp_assume(dphi0 < 0.0); vp_assume(alpha > 0.0);
   g_n = 0; g_arg = 0.0; g_val = 0.0; g_a0 = alpha; g_phi0 = phi0; g_dphi0 = dphi0;
   Merit m;
   miso::LineSearch *p = &ls;
   double r = p->search(std::function<double(double)>(m), phi0, dphi0, alpha);
   vp_true("at most max_iter + 1 evaluations", g_n <= (long)ls.max_iter + 1);
   if (r == 0.0)
   {
      vp_reach("failed");
      vp_true("zero step only after max_iter refinements", g_n == (long)ls.max_iter + 1);
      vp_true("zero step only when the last trial does not decrease", !decrease(g_arg, g_val));
   }
   else
   {
      vp_reach("accepted");
      vp_eq("the accepted step is the last one evaluated", r, g_arg);
      vp_true("sufficient decrease", decrease(r, g_val));
      vp_lt("step positive", 0.0, r);
      vp_le("step at most the full step", r, alpha);
   }
}
// interpolation: on a cubic merit function the refined trials are the clamped
// minimisers of the parabola / cubic that interpolates what has been seen
static double g_p[4], g_x[8];
struct Poly
{
   double operator()(double a) const
   {
      g_x[g_n] = a; g_n = g_n + 1;
      return g_p[0] + a * (g_p[1] + a * (g_p[2] + a * g_p[3]));
   }
};
static double clamp(double s, double lo, double hi) { return fmax(fmin(s, hi), lo); }
static void interp(bool cubic)
{
   miso::BacktrackingLineSearch ls = make();
   vp_assume(ls.interp_order == 3);
   ls.max_iter = 2;
   g_p[0] = vp_real("d", -1, -2, 2); g_p[1] = vp_real("c", -1, -4, -0.1); g_p[2] = vp_real("b", -1, 0.1, 60); g_p[3] = cubic ? vp_real("a", -1, -20, 60) : 0.0;
   double alpha = vp_real("alpha", -1, 0.3, 2.0);
   vp_assume(alpha > 0.0); vp_assume(g_p[1] < 0.0);
   if (cubic)
   {
      vp_assume(g_p[3] > 1e-9 || g_p[3] < -1e-9);
      vp_assume(g_p[2] * g_p[2] - 3.0 * g_p[3] * g_p[1] >= 0.0);
   }
   else { vp_assume(g_p[2] > 0.0); }
   g_n = 0;
   Poly m;
   ls.search(std::function<double(double)>(m), g_p[0], g_p[1], alpha);
   double c = g_p[1], b = g_p[2], a = g_p[3];
   if (g_n > 1)
   {
      vp_reach("second trial");
      double bb = b + a * alpha;  // leading coefficient of the parabola through phi(0), phi'(0), phi(alpha)
      vp_eq("second trial is the clamped minimiser of the parabola", g_x[1], clamp(-c / (2.0 * bb), ls.rho_lo * alpha, ls.rho_hi * alpha));
   }
   if (g_n > 2 && (cubic || vp_symbolic()))   // (rounding makes the cubic coefficient of a parabola noise natively)
   {
      vp_reach("third trial");
      double s = cubic ? (-b + sqrt(b * b - 3.0 * a * c)) / (3.0 * a) : -c / (2.0 * b);
      vp_eq("third trial is the clamped minimiser of the cubic", g_x[2], clamp(s, ls.rho_lo * g_x[1], ls.rho_hi * g_x[1]));
   }
}
VP_HARNESS(h_ls_interp_quadratic) { interp(false); }
VP_HARNESS(h_ls_interp_cubic) { interp(true); }
