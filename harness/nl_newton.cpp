// VP-OPT maxpaths = 4000
// VP-OPT abort_ok = ^h_inexact
// VP-USE ^h_relaxed_step : _ZN4miso22BacktrackingLineSearch6searchERKSt8functionIFddEEddd => contract_search
// VP-OPT unroll = ^h_inexact_(rhs|interpolant)
// VP-INV ^h_inexact_decrease : inv_inexact
// Newton globalisation: Phi, RelaxedNewton, InexactNewton.
#include "std_model.hpp"
#include "mfem_model.hpp"
#include "linesearch.cpp"
#include "relaxed_newton.cpp"
#include "inexact_newton.cpp"
#include "utils.cpp"
#include "vp_harness.hpp"
using mfem::Vector;

static const int N = 2;
static double g_J[N][N], g_b[N], g_x[N], g_c[N];
static void F(const double *x, double *y)
{
   y[0] = vp_fn("F0", N, x);
   y[1] = vp_fn("F1", N, x);
}
struct Jac : mfem::Operator
{
   Jac() : mfem::Operator(N) { }
   void Mult(const Vector &v, Vector &y) const override
   {
      double w0 = v(0), w1 = v(1);
      y(0) = g_J[0][0] * w0 + g_J[0][1] * w1;
      y(1) = g_J[1][0] * w0 + g_J[1][1] * w1;
   }
};
static Jac *g_jac;
static double norm2(const double *x, bool have_b)
{
   double y[N];
   F(x, y);
   if (have_b) { y[0] -= g_b[0]; y[1] -= g_b[1]; }
   return sqrt(y[0] * y[0] + y[1] * y[1]);
}
static void inputs()
{
   for (int i = 0; i < N; ++i)
   {
      g_x[i] = vp_real("x", i, -2, 2); g_c[i] = vp_real("c", i, -2, 2); g_b[i] = vp_real("b", i, -0.1, 0.1);
      for (int j = 0; j < N; ++j) { g_J[i][j] = vp_real(i ? "J1" : "J0", j, -2, 2); }
   }
}
static Vector vec(const double *a) { Vector v(N); v(0) = a[0]; v(1) = a[1]; return v; }

struct Op : mfem::Operator
{
   Op() : mfem::Operator(N) { }
   void Mult(const Vector &x, Vector &y) const override { double a[N] = {x(0), x(1)}, b[N]; F(a, b); y(0) = b[0]; y(1) = b[1]; }
   mfem::Operator &GetGradient(const Vector &) const override { return *g_jac; }
};
// ------------------------------------------------------------- Phi
VP_HARNESS(h_phi)
{
   inputs();
   Jac jac; Op op;
   Vector x = vec(g_x), c = vec(g_c), r(N);
   op.Mult(x, r);
   double r0 = r(0), r1 = r(1);
   double n0 = sqrt(r0 * r0 + r1 * r1);
   vp_assume(n0 > 1e-12);
   miso::Phi phi([&](const Vector &s, Vector &res) { op.Mult(s, res); }, x, c, r, jac);
   vp_reach("phi");
   vp_eq("phi(0) is the residual norm", phi.phi0, n0);
   // d/da |r - a J c| at a = 0
   double Jc0 = g_J[0][0] * g_c[0] + g_J[0][1] * g_c[1], Jc1 = g_J[1][0] * g_c[0] + g_J[1][1] * g_c[1];
   vp_eq("phi'(0) is the slope of the linearised residual norm", phi.dphi0 * n0, -(r0 * Jc0 + r1 * Jc1));
   double a1 = vp_real("a1", -1, -1, 1), a2 = vp_real("a2", -1, -1, 1);
   double t1[N] = {g_x[0] - a1 * g_c[0], g_x[1] - a1 * g_c[1]}, t2[N] = {g_x[0] - a2 * g_c[0], g_x[1] - a2 * g_c[1]};
   vp_eq("phi(a) is the residual norm at x - a c", phi(a1), norm2(t1, false));
   vp_eq("phi can be evaluated again", phi(a2), norm2(t2, false));
   vp_eq("state unchanged", x(0), g_x[0]); vp_eq("state unchanged", x(1), g_x[1]);
   vp_eq("direction unchanged", c(0), g_c[0]); vp_eq("direction unchanged", c(1), g_c[1]);
}
// ----------------------------------------------------- RelaxedNewton
// contract of the line search, proved in nl_linesearch.cpp
extern "C" double contract_search(miso::BacktrackingLineSearch *ls, const std::function<double(double)> &phi, double phi0, double dphi0, double alpha)
{
   vp_lt("line search called with a positive full step", 0.0, alpha);
   if (vp_bool("line search gives up")) { phi(vp_fresh("last trial")); return 0.0; }
   double a = vp_fresh("accepted step");
   vp_assume(a > 0.0); vp_assume(a <= alpha);
   double f = phi(a);
   vp_assume(f <= phi0 + ls->mu * a * dphi0);
   return a;
}
struct RN : miso::RelaxedNewton
{
   RN(const nlohmann::json &o) : miso::RelaxedNewton(MPI_COMM_SELF, o) { }
   void prepare(const Vector &x, const Vector &b)
   {
      SetOperator(*op);
      grad = g_jac;
      for (int i = 0; i < N; i++) { c(i) = g_c[i]; }
      op->Mult(x, r);
      if (b.Size() == N) { r -= b; }
   }
   const mfem::Operator *op;
};
static void relaxed(bool have_b, int cfg)
{
   inputs();
   Jac jac; Op op;
   g_jac = &jac;
   double mu = 1e-4;
   nlohmann::json o = nlohmann::json::object();
   if (cfg == 1) { o["linesearch"] = "backtracking"; }
   if (cfg == 2)
   {
      mu = vp_real("mu", -1, 1e-5, 0.5);
      vp_assume(mu > 0.0); vp_assume(mu < 1.0);
      o["linesearch"]["type"] = "backtracking";
      o["linesearch"]["mu"] = mu;
   }
   RN nt(o);
   nt.op = &op;
   Vector x = vec(g_x), b(have_b ? N : 0);
   if (have_b) { b(0) = g_b[0]; b(1) = g_b[1]; }
   nt.prepare(x, b);
   double r[N];
   F(g_x, r);
   if (have_b) { r[0] -= g_b[0]; r[1] -= g_b[1]; }
   double n0 = sqrt(r[0] * r[0] + r[1] * r[1]);
   vp_assume(n0 > 1e-12);
   double Jc0 = g_J[0][0] * g_c[0] + g_J[0][1] * g_c[1], Jc1 = g_J[1][0] * g_c[0] + g_J[1][1] * g_c[1];
   double slope = -(r[0] * Jc0 + r[1] * Jc1) / n0;
   vp_assume(slope < 0.0);
   double s = nt.ComputeScalingFactor(x, b);
   vp_eq("state unchanged", x(0), g_x[0]); vp_eq("state unchanged", x(1), g_x[1]);
   if (s != 0.0)
   {
      vp_reach("accepted");
      double t[N] = {g_x[0] - s * g_c[0], g_x[1] - s * g_c[1]};
      vp_lt("step positive", 0.0, s); vp_le("step at most 1", s, 1.0);
      vp_le("the accepted Newton step decreases the residual norm sufficiently", norm2(t, have_b), n0 + mu * s * slope);
   }
}
VP_HARNESS(h_relaxed_step_rhs) { relaxed(true, 0); }
VP_HARNESS(h_relaxed_step_norhs) { relaxed(false, 1); }
VP_HARNESS(h_relaxed_step_options) { relaxed(true, 2); }
// ----------------------------------------------------- InexactNewton
// ghost state: current iterate, step direction, last evaluation point and residual
static double q_x[N], q_c[N], q_e[N], q_r[N], q_n, q_s, q_cur, q_t;
static long q_k, q_trial;
static bool q_hb, q_first;
static void record(const Vector &x)
{
   double y[N];
   q_e[0] = x(0); q_e[1] = x(1);
   F(q_e, y);
   q_r[0] = y[0] - (q_hb ? g_b[0] : 0.0); q_r[1] = y[1] - (q_hb ? g_b[1] : 0.0);
   q_n = sqrt(q_r[0] * q_r[0] + q_r[1] * q_r[1]);
   q_s = (q_x[0] - q_e[0]) / q_c[0];
}
struct IOp : mfem::Operator
{
   IOp() : mfem::Operator(N) { }
   void Mult(const Vector &x, Vector &y) const override
   {
      double a[N] = {x(0), x(1)}, b[N];
      record(x);
      F(a, b); y(0) = b[0]; y(1) = b[1];
   }
   mfem::Operator &GetGradient(const Vector &x) const override
   {
      double a[N] = {x(0), x(1)};
      double n = norm2(a, q_hb);
      if (q_k > 0) { vp_le("every step reduces the residual norm by the target amount", n, (1.0 - 0.5 * q_t) * q_cur); }
      q_cur = n;
      q_k = q_k + 1;
      q_x[0] = a[0]; q_x[1] = a[1];
      return *g_jac;
   }
};
struct Prec : mfem::Solver
{
   Prec() : mfem::Solver(N) { }
   void SetOperator(const mfem::Operator &op) override { }
   void Mult(const Vector &r, Vector &c) const override
   {
      double a[N] = {r(0), r(1)};
      vp_eq("the linear solver sees the residual", a[0], q_r[0]);
      vp_eq("the linear solver sees the residual", a[1], q_r[1]);
      q_c[0] = vp_fn("S0", N, a); q_c[1] = vp_fn("S1", N, a);
      vp_assume(q_c[0] != 0.0);
      c(0) = q_c[0]; c(1) = q_c[1];
   }
};
extern "C" void inv_inexact()
{
   vp_cand("x1", q_e[1] == q_x[1] - q_s * q_c[1]);
   vp_cand("x0", q_e[0] == q_x[0] - q_s * q_c[0]);
   double y[N];
   F(q_e, y);
   vp_cand("r0", q_r[0] == y[0] - (q_hb ? g_b[0] : 0.0)); vp_cand("r1", q_r[1] == y[1] - (q_hb ? g_b[1] : 0.0));
   vp_cand("n", q_n == sqrt(q_r[0] * q_r[0] + q_r[1] * q_r[1]));
   vp_cand("dec", q_k == 0 || q_n <= (1.0 - 0.5 * q_t) * q_cur);
   vp_cand("dir", q_k == 0 || q_c[0] != 0.0);
}
static void inexact(bool have_b, int maxit)
{
   inputs();
   Jac jac; g_jac = &jac;
   IOp op; Prec prec;
   q_hb = have_b; q_k = 0; q_c[0] = 1.0; q_c[1] = 0.0; q_x[0] = 0.0; q_x[1] = 0.0; q_cur = 0.0;
   q_t = vp_real("ared", -1, 1e-5, 0.5);
   double eta0 = vp_real("eta", -1, 1e-5, 0.1), etamax = vp_real("etamax", -1, 0.1, 0.9);
   vp_assume(q_t > 0.0); vp_assume(q_t < 1.0);
   vp_assume(eta0 > 0.0); vp_assume(eta0 < 1.0); vp_assume(etamax > 0.0); vp_assume(etamax < 1.0);
   mfem::InexactNewton nt(MPI_COMM_SELF, eta0, etamax, q_t);
   nt.SetOperator(op);
   nt.SetSolver(prec);
   double rtol = vp_real("rtol", -1, 1e-8, 0.5), atol = vp_real("atol", -1, 1e-8, 0.1);
   if (maxit < 0) { maxit = vp_int("maxiter", 0, 1000000); }
   vp_assume(rtol > 0.0); vp_assume(rtol < 1.0); vp_assume(atol >= 0.0);
   nt.SetRelTol(rtol); nt.SetAbsTol(atol); nt.SetMaxIter(maxit);
   nt.iterative_mode = true;
   Vector x = vec(g_x), b(have_b ? N : 0);
   if (have_b) { b(0) = g_b[0]; b(1) = g_b[1]; }
   double n0 = norm2(g_x, have_b);
   const mfem::Solver &slv = nt;
   slv.Mult(b, x);
   double t[N] = {x(0), x(1)};
   double n1 = norm2(t, have_b);
   vp_eq("reported norm is the norm of the returned state", nt.GetFinalNorm(), n1);
   vp_true("at most max_iter iterations", nt.GetNumIterations() <= maxit);
   if (nt.GetConverged()) { vp_reach("converged"); vp_le("converged only when the residual meets the tolerance", n1, fmax(rtol * n0, atol)); }
   else { vp_reach("not converged"); vp_true("gives up only after max_iter", nt.GetNumIterations() == maxit); }
}
VP_HARNESS(h_inexact_decrease) { inexact(false, -1); }
// bounded: two Newton iterations, at most two backtracks each
VP_HARNESS(h_inexact_rhs_bounded) { inexact(true, 1); }

// every trial step is the clamped minimiser of the quadratic through the merit
// function's value and slope at the iterate and its value at the previous trial
static int i_n, i_g;
static double i_s[4], i_p[4], i_slope;
static bool i_two;
static void check_trials()
{
   // evaluations: x, the trials, the accepted point again
   vp_eq("first trial is the full step", i_s[1], 1.0);
   if (i_two && i_n < 5) { return; }
   if (!i_two && i_n >= 4)
   {
      vp_reach("one backtrack");
      double den = 2.0 * (i_p[1] - i_p[0] - i_slope);
      vp_assume(den != 0.0);
      double th = miso::quadInterp(0.0, i_p[0], i_slope, 1.0, i_p[1]);
      th = (th > 0.1) ? th : 0.1;
      th = (th < 0.5) ? th : 0.5;
      vp_eq("second trial minimises the quadratic interpolant", i_s[2], th);
   }
   if (i_n >= 5)
   {
      vp_reach("two backtracks");
      double den = 2.0 * (i_p[2] - i_p[0] - i_s[2] * i_slope);
      vp_assume(den != 0.0);
      double th = miso::quadInterp(0.0, i_p[0], i_s[2] * i_slope, 1.0, i_p[2]);
      th = (th > 0.1) ? th : 0.1;
      th = (th < 0.5) ? th : 0.5;
      vp_eq("third trial minimises the quadratic interpolant", i_s[3], i_s[2] * th);
   }
}
struct IOp2 : mfem::Operator
{
   IOp2() : mfem::Operator(N) { }
   void Mult(const Vector &x, Vector &y) const override
   {
      double a[N] = {x(0), x(1)}, b[N];
      F(a, b); y(0) = b[0]; y(1) = b[1];
      double n = norm2(a, q_hb);
      if (i_n < 4) { i_s[i_n] = (g_x[0] - a[0]) / g_c[0]; i_p[i_n] = 0.5 * n * n; vp_eq("trial on the search line", a[1], g_x[1] - i_s[i_n] * g_c[1]); }
      i_n = i_n + 1;
   }
   mfem::Operator &GetGradient(const Vector &x) const override
   {
      i_g = i_g + 1;
      if (i_g == 2) { check_trials(); vp_assume(false); }
      return *g_jac;
   }
};
// one unknown, for the second backtrack (examined for first backtracks that halve the step)
struct Jac1 : mfem::Operator
{
   Jac1() : mfem::Operator(1) { }
   void Mult(const Vector &v, Vector &y) const override { y(0) = g_J[0][0] * v(0); }
};
static Jac1 *g_jac1;
struct IOp1 : mfem::Operator
{
   IOp1() : mfem::Operator(1) { }
   void Mult(const Vector &x, Vector &y) const override
   {
      double a = x(0), f = vp_fn("F0", 1, &a), r = f - g_b[0];
      y(0) = f;
      if (i_n == 2) { vp_assume(a == g_x[0] - 0.5 * g_c[0]); i_s[2] = 0.5; i_p[2] = 0.5 * r * r; }
      else if (i_n < 4) { i_s[i_n] = (g_x[0] - a) / g_c[0]; i_p[i_n] = 0.5 * r * r; }
      i_n = i_n + 1;
   }
   mfem::Operator &GetGradient(const Vector &x) const override
   {
      i_g = i_g + 1;
      if (i_g == 2) { check_trials(); vp_assume(false); }
      return *g_jac1;
   }
};
struct Prec1 : mfem::Solver
{
   Prec1() : mfem::Solver(1) { }
   void SetOperator(const mfem::Operator &op) override { }
   void Mult(const Vector &r, Vector &c) const override { c(0) = g_c[0]; }
};
static void second_backtrack()
{
   i_two = true;
   inputs();
   Jac1 jac; g_jac1 = &jac;
   IOp1 op; Prec1 prec;
   vp_assume(g_c[0] != 0.0);
   double t = vp_real("ared", -1, 0.2, 0.9);
   vp_assume(t > 0.0); vp_assume(t < 1.0);
   mfem::InexactNewton nt(MPI_COMM_SELF, 1e-4, 1e-1, t);
   nt.SetOperator(op); nt.SetSolver(prec);
   nt.SetRelTol(0.0); nt.SetAbsTol(0.0); nt.SetMaxIter(2); nt.iterative_mode = true;
   Vector x(1), b(1);
   x(0) = g_x[0]; b(0) = g_b[0];
   double r = vp_fn("F0", 1, g_x) - g_b[0];
   vp_assume(r != 0.0);
   i_slope = -(r * g_J[0][0] * g_c[0]);
   vp_assume(i_slope < 0.0);
   i_n = 0; i_g = 0;
   const mfem::Solver &slv = nt;
   slv.Mult(b, x);
   if (i_n >= 3) { check_trials(); }
}
struct Prec2 : mfem::Solver
{
   Prec2() : mfem::Solver(N) { }
   void SetOperator(const mfem::Operator &op) override { }
   void Mult(const Vector &r, Vector &c) const override { c(0) = g_c[0]; c(1) = g_c[1]; }
};
static void interpolant(int maxit)
{
   i_two = false;
   inputs();
   Jac jac; g_jac = &jac;
   IOp2 op; Prec2 prec;
   q_hb = true;
   vp_assume(g_c[0] != 0.0);
   double t = vp_real("ared", -1, 0.2, 0.9);
   vp_assume(t > 0.0); vp_assume(t < 1.0);
   mfem::InexactNewton nt(MPI_COMM_SELF, 1e-4, 1e-1, t);
   nt.SetOperator(op); nt.SetSolver(prec);
   nt.SetRelTol(0.0); nt.SetAbsTol(0.0); nt.SetMaxIter(maxit); nt.iterative_mode = true;
   Vector x = vec(g_x), b = vec(g_b);
   double r[N];
   F(g_x, r);
   r[0] -= g_b[0]; r[1] -= g_b[1];
   vp_assume(r[0] * r[0] + r[1] * r[1] > 0.0);
   double Jc0 = g_J[0][0] * g_c[0] + g_J[0][1] * g_c[1], Jc1 = g_J[1][0] * g_c[0] + g_J[1][1] * g_c[1];
   i_slope = -(r[0] * Jc0 + r[1] * Jc1);
   vp_assume(i_slope < 0.0);
   i_n = 0; i_g = 0;
   const mfem::Solver &slv = nt;
   slv.Mult(b, x);
   if (i_n >= 3) { check_trials(); }
}
VP_HARNESS(h_inexact_interpolant1_bounded) { interpolant(1); }
VP_HARNESS(h_inexact_interpolant2_bounded) { second_backtrack(); }
