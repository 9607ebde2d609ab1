// VP-OPT terminate = ^h_(bisection|secant)
// VP-OPT throw_ok = ^h_none
// VP-OPT maxpaths = 6000
// VP-INV ^h_bisection : inv_bisection
// VP-INV ^h_secant : inv_secant
// VP-USE ^h_interp : dgels_ => contract_dgels
// Scalar solvers, interpolation, boundary markers and elementwise vector operations (utils/utils.cpp)
#define MFEM_USE_LAPACK
#include "std_model.hpp"
#include "mfem_model.hpp"
#include "utils.cpp"
#include "vp_harness.hpp"
#include "ut_utils_dgels.hpp"
using mfem::Vector;

// ---------------------------------------------------------- root finders
static double g_a, g_b, g_m, g_fa, g_fb, g_fm, g_ftol, g_xtol;
static long g_n, g_max;
static double call(double x) { return vp_fn("func", 1, &x); }
struct Bracket
{
   double operator()(double x) const
   {
      if (g_n == 0) { vp_eq("starts at the left end", x, g_a); g_fa = call(x); g_n = 1; return g_fa; }
      if (g_n == 1) { vp_eq("starts at the right end", x, g_b); g_fb = call(x); g_n = 2; return g_fb; }
      if (g_n >= 3)
      {
         vp_true("only an unconverged point is refined", fabs(g_fm) > g_ftol && fabs(g_b - g_a) > g_xtol);
         if (x == 0.5 * (g_a + g_m)) { vp_true("the kept half brackets a root", g_fa * g_fm <= 0.0); g_b = g_m; g_fb = g_fm; }
         else { vp_true("the kept half brackets a root", g_fm * g_fb <= 0.0); g_a = g_m; g_fa = g_fm; }
      }
      vp_eq("each trial is the middle of the bracket", x, 0.5 * (g_a + g_b));
      double f = call(x);
      g_m = x; g_fm = f; g_n = g_n + 1;
      return f;
   }
};
extern "C" void inv_bisection()
{
   vp_cand("bracket", g_fa * g_fb <= 0.0);
   vp_cand("mid", g_m == 0.5 * (g_a + g_b));
   vp_cand("fa", g_fa == call(g_a)); vp_cand("fb", g_fb == call(g_b)); vp_cand("fm", g_fm == call(g_m));
   vp_cand("n", g_n >= 3);
}
VP_HARNESS(h_bisection)
{
   g_a = vp_real("xl", -1, -2, 2); g_b = vp_real("xr", -1, -2, 2);
   double ftol = vp_real("ftol", -1, 1e-9, 1e-1), xtol = vp_real("xtol", -1, 1e-9, 1e-1);
   vp_assume(ftol >= 0.0); vp_assume(xtol >= 0.0);
   int maxit = vp_int("maxiter", 1, 1000000);
   g_ftol = ftol; g_xtol = xtol; g_n = 0; g_max = maxit;
   double fl = call(g_a), fr = call(g_b);
   Bracket f;
   double r = 0.0;
   bool threw = false;
   try { r = miso::bisection(std::function<double(double)>(f), g_a, g_b, ftol, xtol, maxit); }
   catch (int) { threw = true; }
   if (threw)
   {
      if (g_n > 2) { vp_reach("no convergence"); vp_true("gives up only after maxiter bisections", g_n == g_max + 3); vp_true("gives up only unconverged", fabs(g_fm) > ftol && fabs(g_b - g_a) > xtol); }
      else { vp_reach("rejected"); vp_true("rejects only a bracket without sign change", fl * fr > 0.0); }
   }
   else
   {
      vp_reach("found");
      vp_true("a bracket has a sign change", fl * fr <= 0.0);
      vp_eq("returns the last trial", r, g_m);
      vp_true("the root is found to one of the tolerances", fabs(g_fm) <= ftol || fabs(g_b - g_a) <= xtol);
      vp_true("a root is bracketed", g_fa * g_fb <= 0.0);
      vp_true("at most maxiter bisections", g_n <= g_max + 3);
   }
}
struct Secant
{
   double operator()(double x) const
   {
      if (g_n == 0) { g_fa = call(x); g_a = x; g_n = 1; return g_fa; }
      if (g_n == 1) { g_fb = call(x); g_b = x; g_n = 2; double f = g_fb; if (fabs(g_fa) < fabs(g_fb)) { double t = g_a; g_a = g_b; g_b = t; t = g_fa; g_fa = g_fb; g_fb = t; } return f; }
      vp_assume(g_fa != g_fb);
      vp_eq("each trial is the zero of the secant", (x - g_b) * (g_fb - g_fa), -g_fb * (g_b - g_a));
      double f = call(x);
      g_a = g_b; g_fa = g_fb; g_b = x; g_fb = f; g_n = g_n + 1;
      return f;
   }
};
extern "C" void inv_secant()
{
   vp_cand("fa", g_fa == call(g_a)); vp_cand("fb", g_fb == call(g_b));
   vp_cand("n", g_n >= 2);
   vp_cand("sorted", g_n >= 3 || fabs(g_fb) <= fabs(g_fa));
   vp_cand("first", g_n >= 3 || g_n == 2);
   vp_cand("unconverged", g_n == 2 || fabs(g_b - g_a) >= g_xtol);
}
VP_HARNESS(h_secant)
{
   double x1 = vp_real("x1", -1, -2, 2), x2 = vp_real("x2", -1, -2, 2);
   double ftol = vp_real("ftol", -1, 1e-9, 1e-1), xtol = vp_real("xtol", -1, 1e-9, 1e-1);
   vp_assume(ftol >= 0.0); vp_assume(xtol >= 0.0);
   int maxit = vp_int("maxiter", 1, 1000000);
   g_ftol = ftol; g_xtol = xtol; g_n = 0; g_max = maxit;
   Secant f;
   double r = 0.0;
   bool threw = false;
   try { r = miso::secant(std::function<double(double)>(f), x1, x2, ftol, xtol, maxit); }
   catch (std::exception &) { threw = true; }
   if (threw)
   {
      vp_reach("no convergence");
      vp_true("gives up only after maxiter trials", g_n == g_max + 2);
      vp_true("gives up only unconverged", fabs(g_fb) > ftol);
   }
   else
   {
      vp_reach("found");
      double fr = call(r);
      if (g_n == 2) { vp_true("a given point is returned only if it is a root", fabs(fr) <= ftol); }
      else
      {
         vp_eq("returns the last trial", r, g_b);
         vp_true("the root is found to one of the tolerances", fabs(fr) <= ftol || fabs(g_b - g_a) < xtol);
      }
      vp_true("at most maxiter trials", g_n <= g_max + 2);
   }
}
// --------------------------------------------------- quadratic interpolant
VP_HARNESS(h_quadinterp)
{
   double x0 = vp_real("x0", -1, -2, 2), x1 = vp_real("x1", -1, -2, 2), c0 = vp_real("c0", -1, -2, 2), c1 = vp_real("c1", -1, -2, 2), c2 = vp_real("c2", -1, -2, 2);
   vp_assume(x0 != x1); vp_assume(c2 != 0.0);
   vp_reach("interpolant");
   // stationary point of the quadratic with these values and this slope
   double s = miso::quadInterp(x0, c0 + c1 * x0 + c2 * x0 * x0, c1 + 2.0 * c2 * x0, x1, c0 + c1 * x1 + c2 * x1 * x1);
   vp_tol(1e-5);
   vp_eq("stationary point of the interpolating quadratic", c1 + 2.0 * c2 * s, 0.0);
}
// ------------------------------------------------- elementwise operations
static Vector rnd(const char *nm, int n)
{
   Vector v(n);
   for (int i = 0; i < n; ++i) { v(i) = vp_real(nm, i, 0.5, 2.0); }
   return v;
}
VP_HARNESS(h_elementwise)
{
   int n = vp_choice("n", 1, 5);
   Vector a = rnd("a", n), b = rnd("b", n), v(n), w(a), q(n), u(n), al(a), al2(a), al3(b);
   for (int i = 0; i < n; ++i) { vp_assume(b(i) != 0.0); }
   miso::multiplyElementwise(a, b, v);
   miso::multiplyElementwise(b, w);
   miso::divideElementwise(a, b, q);
   miso::invertElementwise(b, u);
   miso::multiplyElementwise(al, b, al);
   miso::divideElementwise(al2, b, al2);
   miso::invertElementwise(al3, al3);
   vp_reach("elementwise");
   for (int i = 0; i < n; ++i)
   {
      double x = vp_real("a", i, 0.5, 2.0), y = vp_real("b", i, 0.5, 2.0);
      vp_eq("product", v(i), x * y); vp_eq("product in place", w(i), x * y); vp_eq("product into its argument", al(i), x * y);
      vp_eq("quotient", q(i) * y, x); vp_eq("quotient into its argument", al2(i) * y, x);
      vp_eq("reciprocal", u(i) * y, 1.0); vp_eq("reciprocal into its argument", al3(i) * y, 1.0);
      vp_eq("arguments unchanged", a(i), x); vp_eq("arguments unchanged", b(i), y);
   }
}
VP_HARNESS(h_sqexp)
{
   int n = vp_choice("n", 1, 3);
   Vector x = rnd("x", n), c = rnd("c", n);
   double len = vp_real("len", -1, 0.5, 2.0);
   vp_assume(len != 0.0);
   double d = 0.0;
   for (int i = 0; i < n; ++i) { d += (x(i) - c(i)) * (x(i) - c(i)); }
   double f = miso::squaredExponential(len, c, x);
   vp_reach("radial basis");
   vp_eq("log of the radial basis function", log(f), -d / (len * len));
   vp_eq("value", f, exp(-d / (len * len)));
   vp_eq("one at the centre", miso::squaredExponential(len, c, c), 1.0);
   vp_eq("symmetric", miso::squaredExponential(len, x, c), f);
}
// -------------------------------------------------------- boundary markers
VP_HARNESS(h_attributes)
{
   int n = vp_choice("attributes", 1, 3), m = vp_choice("listed", 0, 2);
   std::vector<int> l;
   for (int i = 0; i < m; ++i) { l.push_back(vp_choice(i ? "second" : "first", 1, n)); }
   mfem::Array<int> a(n), b(n);
   a = 7; b = 9;
   miso::attrVecToArray(l, a);
   nlohmann::json j = l;
   miso::getMFEMBoundaryArray(j, b);
   vp_reach("markers");
   for (int i = 0; i < n; ++i)
   {
      int want = 0;
      for (int v : l) { if (v == i + 1) { want = 1; } }
      vp_ieq("exactly the listed attributes are marked", a[i], want);
      vp_ieq("exactly the listed boundaries are marked", b[i], want);
   }
}
VP_HARNESS(h_boundary_names)
{
   int n = vp_choice("attributes", 1, 3);
   mfem::Array<int> a(n), b(n), c(n);
   a = 7; b = 7; c = 7;
   miso::getMFEMBoundaryArray("all", a);
   miso::getMFEMBoundaryArray("none", b);
   bool t1 = false, t2 = false;
   try { miso::getMFEMBoundaryArray("some", c); } catch (miso::MISOException &) { t1 = true; }
   try { miso::getMFEMBoundaryArray(3.0, c); } catch (miso::MISOException &) { t2 = true; }
   vp_reach("named");
   vp_true("an unknown name is rejected", t1); vp_true("a value that is neither name nor list is rejected", t2);
   for (int i = 0; i < n; ++i) { vp_ieq("all", a[i], 1); vp_ieq("none", b[i], 0); }
}
// -------------------------------------------------- patch interpolation
// exact for every polynomial of the given degree: checked on every monomial
// about an arbitrary origin (they span the polynomials of that degree)
static double mono(int p, int q, int r, const double *x) { return pow(x[0], p) * pow(x[1], q) * pow(x[2], r); }
static void interp(int dim, int degree, int nel, bool ls)
{
   mfem::DenseMatrix xc(dim, nel), xq(dim, 2), R;
   static const char *cn[3] = {"xc", "yc", "zc"}, *qn[3] = {"xq", "yq", "zq"};
   for (int d = 0; d < dim; ++d)
   {
      // arbitrary points, written relative to the first centre
      double o = vp_real(cn[d], 0, -1, 1);
      for (int j = 0; j < nel; ++j) { xc(d, j) = j == 0 ? o : o + vp_real(cn[d], j, -1, 1); }
      for (int j = 0; j < 2; ++j) { xq(d, j) = o + vp_real(qn[d], j, -1, 1); }
   }
   vp_reach("interpolation operator");
   vp_tol(1e-3);
   if (ls) { miso::buildLSInterpolation(dim, degree, xc, xq, R); }
   else { miso::buildInterpolation(dim, degree, xc, xq, R); }
   vp_ieq("one row per point", R.Height(), 2); vp_ieq("one column per element", R.Width(), nel);
   for (int p = 0; p <= degree; ++p)
   {
      for (int q = 0; p + q <= degree && (q == 0 || dim > 1); ++q)
      {
         for (int r = 0; p + q + r <= degree && (r == 0 || dim > 2); ++r)
         {
            for (int i = 0; i < 2; ++i)
            {
               double s = 0.0, o[3] = {0.0, 0.0, 0.0}, c[3] = {0.0, 0.0, 0.0};
               // moments about the point (buildInterpolation) or the first centre
               for (int d = 0; d < dim; ++d) { o[d] = ls ? xc(d, 0) : xq(d, i); }
               for (int j = 0; j < nel; ++j)
               {
                  for (int d = 0; d < dim; ++d) { c[d] = xc(d, j) - o[d]; }
                  s += R(i, j) * mono(p, q, r, c);
               }
               for (int d = 0; d < dim; ++d) { c[d] = xq(d, i) - o[d]; }
               vp_eq("polynomials of the degree are reproduced", s, mono(p, q, r, c));
            }
         }
      }
   }
}
VP_HARNESS(h_interp_1d_1) { interp(1, 1, 3, false); }
VP_HARNESS(h_interp_1d_3) { interp(1, 3, 5, false); }
VP_HARNESS(h_interp_2d_1) { interp(2, 1, 4, false); }
VP_HARNESS(h_interp_2d_2) { interp(2, 2, 7, false); }
VP_HARNESS(h_interp_ls_1d_1) { interp(1, 1, 3, true); }
VP_HARNESS(h_interp_ls_1d_2) { interp(1, 2, 4, true); }
VP_HARNESS(h_interp_ls_2d_1) { interp(2, 1, 4, true); }
VP_HARNESS(h_interp_ls_2d_2) { interp(2, 2, 7, true); }
VP_HARNESS(h_interp_ls_3d_1) { interp(3, 1, 5, true); }
VP_HARNESS(h_interp_ls_3d_2) { interp(3, 2, 11, true); }
