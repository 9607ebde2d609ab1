// VP-OPT throw_ok = ^h_rrk
// VP-OPT terminate = ^h_ode_unknown|^h_ode_deprecated
// VP-USE ^h_rrk_(midpoint|explicit|type) : _ZN4miso6secantERKSt8functionIFddEEddddi => contract_secant
// VP-USE ^h_rrk6_ : _ZN4miso6secantERKSt8functionIFddEEddddi => contract_secant_one
// Time marching: steady, pseudo-transient, relaxation Runge-Kutta, first-order ODE wrapper, space-time residual.
#include "std_model.hpp"
#include "mfem_model.hpp"
#include "mfem_extensions.cpp"
#include "ode.cpp"
#include "evolver.cpp"
#include "matrix_operators.cpp"
#include "miso_input.cpp"
#include "relaxed_newton.cpp"
#include "linesearch.cpp"
#include "utils.cpp"
#include "vp_harness.hpp"
using mfem::Vector;

static const int N = 2;
static double g_x[N];
static Vector vec(const double *a) { Vector v(N); v(0) = a[0]; v(1) = a[1]; return v; }
static void real2(const char *n, double *a, double lo, double hi) { for (int i = 0; i < N; ++i) { a[i] = vp_real(n, i, lo, hi); } }
// ------------------------------------------------- contract of the root finder
// (proved in ut_utils.cpp: the returned point satisfies |f| <= ftol, or the last
// correction was below xtol, or an exception is thrown)
static bool g_met;
extern "C" double contract_secant(const std::function<double(double)> &f, double x1, double x2, double ftol, double xtol, int maxiter)
{
   vp_true("the root finder is given two distinct starting points", x1 != x2);
   vp_true("the root finder is allowed to iterate", maxiter > 0);
   f(x1);
   f(vp_fresh("trial"));
   double r = vp_fresh("gamma");
   bool met = vp_bool("function tolerance met");
   double v = f(r);
   if (met) { vp_assume(fabs(v) <= ftol); }
   f(vp_fresh("trial"));
   g_met = met;
   return r;
}
extern "C" double contract_secant_one(const std::function<double(double)> &f, double x1, double x2, double ftol, double xtol, int maxiter) { return 1.0; }

// ----------------------------------------------------------- steppers
struct Ode : miso::EntropyConstrainedOperator
{
   mutable int calls = 0;
   double guess[N] = {0, 0};
   Ode() : miso::EntropyConstrainedOperator(N, 0.0) { }
   void K(double time, const double *x, double *k) const
   {
      double a[N + 1] = {time, x[0], x[1]};
      k[0] = vp_fn("K0", N + 1, a); k[1] = vp_fn("K1", N + 1, a);
   }
   void I(double time, double dt, const double *x, double *k) const
   {
      double a[N + 2] = {time, dt, x[0], x[1]};
      k[0] = vp_fn("I0", N + 2, a); k[1] = vp_fn("I1", N + 2, a);
   }
   double S(const double *x) const { return vp_fn("S", N, x); }
   double D(double time, double dt, const double *x, const double *k) const
   {
      double a[2 * N + 2] = {time, dt, x[0], x[1], k[0], k[1]};
      return vp_fn("D", 2 * N + 2, a);
   }
   void Mult(const Vector &x, Vector &k) const override { double a[N] = {x(0), x(1)}, b[N]; K(t, a, b); k(0) = b[0]; k(1) = b[1]; ++calls; }
   void ImplicitSolve(double dt, const Vector &x, Vector &k) override
   {
      double a[N] = {x(0), x(1)}, b[N];
      guess[0] = k(0); guess[1] = k(1);
      I(t, dt, a, b); k(0) = b[0]; k(1) = b[1]; ++calls;
   }
   double Entropy(const Vector &x) override { double a[N] = {x(0), x(1)}; return S(a); }
   double EntropyChange(double dt, const Vector &x, const Vector &k) override { double a[N] = {x(0), x(1)}, b[N] = {k(0), k(1)}; return D(t, dt, a, b); }
};
static double g_t, g_dt;
static void inputs()
{
   real2("x", g_x, -1, 1);
   g_t = vp_real("t", -1, 0, 1); g_dt = vp_real("dt", -1, 0.05, 0.5);
   g_met = false;
}
VP_HARNESS(h_step_steady)
{
   inputs();
   Ode ode;
   miso::SteadyODESolver s;
   s.Init(ode);
   Vector x = vec(g_x);
   double t = g_t, dt = g_dt, k[N];
   ode.I(g_t + g_dt, g_dt, g_x, k);
   s.Step(x, t, dt);
   vp_reach("step");
   for (int i = 0; i < N; ++i)
   {
      vp_eq("the implicit solve starts at the current state", ode.guess[i], g_x[i]);
      vp_eq("the new state is the steady solution", x(i), k[i]);
   }
   vp_eq("time advances by dt", t, g_t + g_dt);
   vp_eq("dt unchanged", dt, g_dt);
   vp_ieq("one solve", ode.calls, 1);
}
VP_HARNESS(h_step_pseudo)
{
   inputs();
   Ode ode;
   miso::PseudoTransientSolver s;
   s.Init(ode);
   Vector x = vec(g_x);
   double t = g_t, dt = g_dt, k[N], y[N], k2[N];
   ode.I(g_t + g_dt, g_dt, g_x, k);
   s.Step(x, t, dt);
   vp_reach("step");
   for (int i = 0; i < N; ++i) { y[i] = g_x[i] + g_dt * k[i]; vp_eq("backward Euler update", x(i), y[i]); }
   vp_eq("time advances by dt", t, g_t + g_dt);
   vp_eq("dt unchanged", dt, g_dt);
   // a second step continues from the first
   double t1 = t;
   dt = vp_real("dt2", -1, 0.05, 0.5);
   double dt2 = dt;
   ode.I(t1 + dt2, dt2, y, k2);
   s.Step(x, t, dt);
   for (int i = 0; i < N; ++i) { vp_eq("backward Euler update again", x(i), y[i] + dt2 * k2[i]); }
   vp_eq("time advances by the second dt", t, t1 + dt2);
}
static void entropy_balance(const Ode &ode, const Vector &x, double t, const double *dir, double delta)
{
   // x_new = x + (t_new - t) dir; entropy balanced to the solver's tolerance
   double xn[N];
   for (int i = 0; i < N; ++i)
   {
      xn[i] = x(i);
      vp_eq("the state moves along the combined slope by the time advanced", xn[i], g_x[i] + (t - g_t) * dir[i]);
   }
   if (!vp_symbolic() || g_met)
   {
      double defect = ode.S(xn) - ode.S(g_x) + (t - g_t) * delta, tol = vp_symbolic() ? 1e-12 : 1e-6;
      vp_le("entropy is balanced over the relaxed step", defect, tol);
      vp_le("entropy is balanced over the relaxed step", -defect, tol);
   }
}
static void midpoint(std::ostream *os)
{
   inputs();
   Ode ode;
   miso::RRKImplicitMidpointSolver s(os);
   s.Init(ode);
   vp_reach("midpoint");
   Vector x = vec(g_x);
   double t = g_t, dt = g_dt, k[N], xm[N];
   ode.I(g_t + 0.5 * g_dt, 0.5 * g_dt, g_x, k);
   for (int i = 0; i < N; ++i) { xm[i] = g_x[i] + 0.5 * g_dt * k[i]; }
   double delta = ode.D(g_t + 0.5 * g_dt, 0.5 * g_dt, xm, k);
   s.Step(x, t, dt);
   entropy_balance(ode, x, t, k, delta);
   vp_eq("dt unchanged", dt, g_dt);
   vp_ieq("one implicit solve", ode.calls, 1);
}
VP_HARNESS(h_rrk_midpoint) { midpoint(nullptr); }
VP_HARNESS(h_rrk_midpoint_out) { midpoint(&std::cout); }
template <int S>
static void explicit_rrk(std::ostream *os)
{
   inputs();
   double a[S * (S - 1) / 2 + 1], b[S], c[S];
   for (int i = 0; i < S * (S - 1) / 2; ++i) { a[i] = vp_real("a", i, -0.5, 1); }
   for (int i = 0; i < S; ++i) { b[i] = vp_real("b", i, 0, 1); c[i] = vp_real("cc", i, 0, 1); }
   Ode ode;
   miso::ExplicitRRKSolver s(S, a, b, c, os);
   s.Init(ode);
   vp_reach("explicit");
   Vector x = vec(g_x);
   double t = g_t, dt = g_dt, k[S][N], dir[N] = {0, 0}, delta = 0.0;
   for (int i = 0, l = 0; i < S; ++i)
   {
      double y[N] = {g_x[0], g_x[1]}, ci = i ? c[i - 1] : 0.0;
      for (int j = 0; j < i; ++j, ++l) { for (int n = 0; n < N; ++n) { y[n] += g_dt * a[l] * k[j][n]; } }
      ode.K(g_t + ci * g_dt, y, k[i]);
      delta += b[i] * ode.D(g_t + ci * g_dt, ci * g_dt, y, k[i]);
      for (int n = 0; n < N; ++n) { dir[n] += b[i] * k[i][n]; }
   }
   s.Step(x, t, dt);
   entropy_balance(ode, x, t, dir, delta);
   vp_eq("dt unchanged", dt, g_dt);
   vp_ieq("one evaluation per stage", ode.calls, S);
}
VP_HARNESS(h_rrk_explicit1) { explicit_rrk<1>(nullptr); }
VP_HARNESS(h_rrk_explicit2) { explicit_rrk<2>(nullptr); }
VP_HARNESS(h_rrk_explicit3) { explicit_rrk<3>(&std::cout); }
VP_HARNESS(h_rrk_explicit4) { explicit_rrk<4>(nullptr); }

// ----------------------------------------------- order conditions of RRK6
// The method's coefficients are observed: stage slopes are unit vectors, so the
// stage states are the rows of A and the update is the weight vector b.
struct Probe : miso::EntropyConstrainedOperator
{
   static const int S = 8;
   mutable int n = 0;
   mutable double A[S][S], c[S];
   Probe() : miso::EntropyConstrainedOperator(S, 0.0) { }
   void Mult(const Vector &x, Vector &k) const override
   {
      if (n >= S) { vp_true("eight stages", false); return; }
      for (int j = 0; j < S; ++j) { A[n][j] = x(j); k(j) = j == n ? 1.0 : 0.0; }
      c[n] = t;
      ++n;
   }
   double Entropy(const Vector &x) override { return x.Sum(); }
   double EntropyChange(double, const Vector &, const Vector &) override { return -1.0; }
};
// rooted trees with at most six vertices: density and branches
static const int TREES[37][6] = {{1, -1, -1, -1, -1, -1}, {2, 0, -1, -1, -1, -1}, {6, 1, -1, -1, -1, -1}, {3, 0, 0, -1, -1, -1}, {12, 3, -1, -1, -1, -1}, {24, 2, -1, -1, -1, -1}, {8, 1, 0, -1, -1, -1}, {4, 0, 0, 0, -1, -1}, {20, 7, -1, -1, -1, -1}, {40, 6, -1, -1, -1, -1}, {120, 5, -1, -1, -1, -1}, {60, 4, -1, -1, -1, -1}, {15, 3, 0, -1, -1, -1}, {30, 2, 0, -1, -1, -1}, {20, 1, 1, -1, -1, -1}, {10, 1, 0, 0, -1, -1}, {5, 0, 0, 0, 0, -1}, {30, 16, -1, -1, -1, -1}, {60, 15, -1, -1, -1, -1}, {120, 14, -1, -1, -1, -1}, {180, 13, -1, -1, -1, -1}, {90, 12, -1, -1, -1, -1}, {360, 11, -1, -1, -1, -1}, {720, 10, -1, -1, -1, -1}, {240, 9, -1, -1, -1, -1}, {120, 8, -1, -1, -1, -1}, {24, 7, 0, -1, -1, -1}, {48, 6, 0, -1, -1, -1}, {144, 5, 0, -1, -1, -1}, {72, 4, 0, -1, -1, -1}, {36, 3, 1, -1, -1, -1}, {18, 3, 0, 0, -1, -1}, {72, 2, 1, -1, -1, -1}, {36, 2, 0, 0, -1, -1}, {24, 1, 1, 0, -1, -1}, {12, 1, 0, 0, 0, -1}, {6, 0, 0, 0, 0, 0}};
VP_HARNESS(h_rrk6_order)
{
   const int S = Probe::S;
   Probe p;
   miso::RRK6Solver s;
   s.Init(p);
   Vector x(S);
   x = 0.0;
   double t = 0.0, dt = 1.0, b[S], phi[37][S];
   s.Step(x, t, dt);
   vp_reach("rrk6");
   for (int i = 0; i < S; ++i) { b[i] = x(i) / t; }
   for (int i = 0; i < S; ++i)
   {
      double row = 0.0;
      for (int j = 0; j < S; ++j) { row += p.A[i][j]; if (j >= i) { vp_eq("explicit method", p.A[i][j], 0.0); } }
      vp_eqtol("stage time is the sum of the stage row", p.c[i], row, 1e-12);
   }
   for (int q = 0; q < 37; ++q)
   {
      double w = 0.0;
      for (int i = 0; i < S; ++i) { phi[q][i] = 1.0; }
      for (int m = 1; m < 6; ++m)
      {
         int ch = TREES[q][m];
         if (ch < 0) { break; }
         for (int i = 0; i < S; ++i) { double z = 0.0; for (int j = 0; j < i; ++j) { z += p.A[i][j] * phi[ch][j]; } phi[q][i] *= z; }
      }
      for (int i = 0; i < S; ++i) { w += b[i] * phi[q][i]; }
      vp_eqtol("order condition", w, 1.0 / TREES[q][0], 1e-9);
   }
}
// ------------------------------------------------------- first-order ODE
struct Rec { int sets = 0, evals = 0, jacs = 0; double u[N], ud[N], dt, time, s[N]; bool has_u, has_ud, has_dt, has_time; bool wrt_state, wrt_dxdt; };
static Rec g_rec;
static mfem::DenseMatrix *g_J;
static double get_val(const miso::MISOInputs &in, const char *key, bool &has)
{
   auto it = in.find(key);
   has = it != in.end();
   if (!has) { return 0.0; }
   return std::get<double>(it->second);
}
static void get_vec(const miso::MISOInputs &in, const char *key, double *v, bool &has)
{
   auto it = in.find(key);
   has = it != in.end();
   if (!has) { v[0] = v[1] = 0.0; return; }
   auto &iv = std::get<miso::InputVector>(it->second);
   v[0] = iv.data[0]; v[1] = iv.data[1];
}
struct MockRes
{
   friend int getSize(const MockRes &) { return N; }
   friend MPI_Comm getMPIComm(const MockRes &) { return MPI_COMM_SELF; }
   friend void setInputs(MockRes &, const miso::MISOInputs &in)
   {
      ++g_rec.sets;
      get_vec(in, "state", g_rec.u, g_rec.has_u); get_vec(in, "state_dot", g_rec.ud, g_rec.has_ud);
      g_rec.dt = get_val(in, "dt", g_rec.has_dt); g_rec.time = get_val(in, "time", g_rec.has_time);
   }
   friend void setOptions(MockRes &, const nlohmann::json &) { }
   static void R(const double *s, double *r) { r[0] = vp_fn("R0", N, s); r[1] = vp_fn("R1", N, s); }
   friend void evaluate(MockRes &, const miso::MISOInputs &in, Vector &r)
   {
      bool has;
      double s[N], y[N];
      get_vec(in, "state", s, has);
      vp_true("the residual is given the state", has);
      R(s, y);
      r(0) = y[0]; r(1) = y[1];
      ++g_rec.evals;
   }
   friend mfem::Operator &getJacobian(MockRes &, const miso::MISOInputs &in, const std::string &wrt)
   {
      bool has;
      get_vec(in, "state", g_rec.s, has);
      vp_true("the Jacobian is given the state", has);
      g_rec.wrt_state = wrt == "state"; g_rec.wrt_dxdt = wrt == "dxdt";
      ++g_rec.jacs;
      for (int i = 0; i < N; ++i) { for (int j = 0; j < N; ++j) { (*g_J)(i, j) = vp_fn(i ? (j ? "J11" : "J10") : (j ? "J01" : "J00"), N, g_rec.s); } }
      return *g_J;
   }
   friend double calcEntropy(MockRes &, const miso::MISOInputs &in) { bool has; double s[N]; get_vec(in, "state", s, has); return vp_fn("S", N, s); }
   friend double calcEntropyChange(MockRes &, const miso::MISOInputs &in)
   {
      bool has;
      double s[2 * N + 2];
      get_vec(in, "state", s, has); get_vec(in, "state_dot", s + N, has);
      s[2 * N] = get_val(in, "time", has); s[2 * N + 1] = get_val(in, "dt", has);
      return vp_fn("D", 2 * N + 2, s);
   }
};
struct MockSolver : mfem::Solver
{
   mutable int calls = 0;
   mutable bool zero_rhs = true;
   MockSolver() : mfem::Solver(N) { }
   void SetOperator(const mfem::Operator &) override { }
   static void K(double time, double dt, const double *u, double *k) { double a[N + 2] = {time, dt, u[0], u[1]}; k[0] = vp_fn("K0", N + 2, a); k[1] = vp_fn("K1", N + 2, a); }
   void Mult(const Vector &b, Vector &x) const override
   {
      ++calls;
      for (int i = 0; i < b.Size(); ++i) { if (b(i) != 0.0) { zero_rhs = false; } }
      double k[N];
      K(g_rec.time, g_rec.dt, g_rec.u, k);
      x(0) = k[0]; x(1) = k[1];
   }
};
static nlohmann::json options(const char *type) { nlohmann::json o = nlohmann::json::object(); o["type"] = type; return o; }
VP_HARNESS(h_ode_solve)
{
   inputs();
   g_rec = Rec();
   miso::MISOResidual res{MockRes()};
   MockSolver solver;
   miso::FirstOrderODE ode(res, options("MIDPOINT"), solver);
   vp_reach("ode");
   Vector x = vec(g_x), k(N);
   k = 0.0;
   double e[N];
   ode.SetTime(g_t);
   ode.Mult(x, k);
   MockSolver::K(g_t, 0.0, g_x, e);
   for (int i = 0; i < N; ++i) { vp_eq("explicit slope solves the residual at dt = 0", k(i), e[i]); vp_eq("state passed", g_rec.u[i], g_x[i]); }
   vp_true("inputs set", g_rec.has_u && g_rec.has_ud && g_rec.has_dt && g_rec.has_time);
   ode.ImplicitSolve(g_dt, x, k);
   MockSolver::K(g_t, g_dt, g_x, e);
   for (int i = 0; i < N; ++i) { vp_eq("implicit slope solves the residual at dt", k(i), e[i]); vp_eq("the state is not modified", x(i), g_x[i]); }
   vp_ieq("one solve each", solver.calls, 2);
   vp_true("zero right-hand side", solver.zero_rhs);
   vp_eq("entropy is the residual's entropy", ode.Entropy(x), vp_fn("S", N, g_x));
   double kk[N];
   real2("k", kk, -1, 1);
   k = vec(kk);
   double d[2 * N + 2] = {g_x[0], g_x[1], kk[0], kk[1], g_t, g_dt};
   vp_eq("entropy change is the residual's", ode.EntropyChange(g_dt, x, k), vp_fn("D", 2 * N + 2, d));
}
template <int T>
static void timestepper()
{
   static const char *names[] = {"PTC", "steady", "RRK", "RRKMIDPOINT"};
   inputs();
   g_rec = Rec();
   miso::MISOResidual res{MockRes()};
   MockSolver solver;
   solver.iterative_mode = vp_bool("iterative mode");
   miso::FirstOrderODE ode(res, options(names[T]), solver);
   vp_reach("type");
   vp_true("only steady solves start from the current iterate", solver.iterative_mode == (T == 1));
   Vector x = vec(g_x);
   double t = g_t, dt = g_dt, k[N];
   ode.step(x, t, dt);
   if (T <= 1) { vp_eq("time advances by dt", t, g_t + g_dt); }
   MockSolver::K(T <= 1 ? g_t + g_dt : g_t + 0.5 * g_dt, T <= 1 ? g_dt : 0.5 * g_dt, g_x, k);
   for (int i = 0; i < N; ++i) { vp_eq("the named method takes the step", x(i), T == 1 ? k[i] : g_x[i] + (t - g_t) * k[i]); }
}
VP_HARNESS(h_ode_type_ptc) { timestepper<0>(); }
VP_HARNESS(h_ode_type_steady) { timestepper<1>(); }
VP_HARNESS(h_rrk_type_rrk) { timestepper<2>(); }
VP_HARNESS(h_rrk_type_rrkmidpoint) { timestepper<3>(); }
static void slope(double time, const double *x, double *k) { MockSolver::K(time, 0.0, x, k); }
template <int T>
static void named()
{
   static const char *names[] = {"RK1", "RK4", "MIDPOINT"};
   inputs();
   g_rec = Rec();
   miso::MISOResidual res{MockRes()};
   MockSolver solver;
   miso::FirstOrderODE ode(res, options(names[T]), solver);
   vp_reach("named");
   vp_true("solves do not start from the current iterate", !solver.iterative_mode);
   Vector x = vec(g_x);
   double t = g_t, dt = g_dt, k[4][N], y[N], e[N];
   ode.step(x, t, dt);
   vp_eq("time advances by dt", t, g_t + g_dt);
   if (T == 0) { slope(g_t, g_x, k[0]); for (int i = 0; i < N; ++i) { e[i] = g_x[i] + g_dt * k[0][i]; } }
   if (T == 2)
   {
      MockSolver::K(g_t + 0.5 * g_dt, 0.5 * g_dt, g_x, k[0]);
      for (int i = 0; i < N; ++i) { e[i] = g_x[i] + g_dt * k[0][i]; }
   }
   if (T == 1)
   {
      slope(g_t, g_x, k[0]);
      for (int i = 0; i < N; ++i) { y[i] = g_x[i] + 0.5 * g_dt * k[0][i]; }
      slope(g_t + 0.5 * g_dt, y, k[1]);
      for (int i = 0; i < N; ++i) { y[i] = g_x[i] + 0.5 * g_dt * k[1][i]; }
      slope(g_t + 0.5 * g_dt, y, k[2]);
      for (int i = 0; i < N; ++i) { y[i] = g_x[i] + g_dt * k[2][i]; }
      slope(g_t + g_dt, y, k[3]);
      for (int i = 0; i < N; ++i) { e[i] = g_x[i] + g_dt * (k[0][i] + 2 * k[1][i] + 2 * k[2][i] + k[3][i]) / 6.0; }
   }
   for (int i = 0; i < N; ++i) { vp_eq("the named method takes the step", x(i), e[i]); }
}
VP_HARNESS(h_ode_named_rk1) { named<0>(); }
VP_HARNESS(h_ode_named_rk4) { named<1>(); }
VP_HARNESS(h_ode_named_midpoint) { named<2>(); }
template <int T>
static void rejected()
{
   g_rec = Rec();
   miso::MISOResidual res{MockRes()};
   MockSolver solver;
   nlohmann::json o = options(T == 0 ? "leapfrog" : T == 1 ? "rk4" : "RK1");
   if (T == 2) { o["ode-solver"] = "RK1"; }
   bool caught = false;
   try { miso::FirstOrderODE ode(res, o, solver); }
   catch (const miso::MISOException &) { caught = true; }
   vp_reach("rejected");
   vp_true("rejected with a MISO exception", caught);
}
VP_HARNESS(h_ode_unknown) { rejected<0>(); }
VP_HARNESS(h_ode_unknown_case) { rejected<1>(); }
VP_HARNESS(h_ode_deprecated) { rejected<2>(); }
// ---------------------------------------------------- space-time residual
static void str_inputs(miso::MISOInputs &in, const Vector &u, const Vector &ud, double dt)
{
   in = miso::MISOInputs{{"state", u}, {"state_dot", ud}, {"dt", dt}, {"time", g_t}};
}
static void spacetime(double dt, bool zero)
{
   g_rec = Rec();
   double ud[N], s[N], R[N];
   real2("ud", ud, -1, 1);
   miso::MISOResidual sp{MockRes()};
   miso::TimeDependentResidual st(sp);
   mfem::DenseMatrix J(N);
   g_J = &J;
   vp_reach("spacetime");
   Vector u = vec(g_x), v = vec(ud), r(N);
   r = 7.0;
   miso::MISOInputs in;
   str_inputs(in, u, v, dt);
   vp_ieq("size of the spatial residual", getSize(st), N);
   setInputs(st, in);
   vp_ieq("inputs are passed to the spatial residual", g_rec.sets, 1);
   vp_true("inputs are passed to the spatial residual", g_rec.has_u && g_rec.has_dt && g_rec.has_time && g_rec.has_ud);
   for (int rep = 0; rep < 2; ++rep)
   {
      evaluate(st, in, r);
      for (int i = 0; i < N; ++i) { s[i] = u(i) + dt * v(i); }
      MockRes::R(s, R);
      for (int i = 0; i < N; ++i)
      {
         vp_eq("residual is M du/dt + R(u + dt du/dt)", r(i), v(i) + R[i]);
         vp_eq("the state is not modified", u(i), rep ? -g_x[i] : g_x[i]);
         vp_eq("the state rate is not modified", v(i), rep ? 2.0 * ud[i] : ud[i]);
      }
      mfem::Operator &jac = getJacobian(st, in, "state");
      double e[N];
      for (int j = 0; j < N; ++j)
      {
         Vector ej(N), y(N);
         ej = 0.0; ej(j) = 1.0;
         jac.Mult(ej, y);
         for (int i = 0; i < N; ++i)
         {
            double Jij = vp_fn(i ? (j ? "J11" : "J10") : (j ? "J01" : "J00"), N, s);
            vp_eq("Jacobian with respect to du/dt is M + dt dR/du", y(i), (i == j ? 1.0 : 0.0) + dt * Jij);
         }
      }
      (void)e;
      // the inputs are references: a new iterate is seen without setting it again
      for (int i = 0; i < N; ++i) { u(i) = -g_x[i]; v(i) = 2.0 * ud[i]; }
      setInputs(st, in);
   }
}
VP_HARNESS(h_str_implicit) { inputs(); vp_assume(g_dt > 0.0); spacetime(g_dt, false); }
VP_HARNESS(h_str_explicit) { inputs(); spacetime(0.0, true); }
// A nonlinear solver evaluates the space-time residual at trial rates other than
// the one the inputs refer to (line searches do).
VP_HARNESS(h_str_trial)
{
   inputs();
   g_rec = Rec();
   double ud[N], tr[N], s[N], R[N];
   real2("ud", ud, -1, 1); real2("trial", tr, -1, 1);
   vp_assume(g_dt > 0.0);
   miso::MISOResidual sp{MockRes()};
   miso::MISOResidual st{miso::TimeDependentResidual(sp)};
   vp_reach("trial");
   Vector u = vec(g_x), v = vec(ud), w = vec(tr), r(N);
   miso::MISOInputs in;
   str_inputs(in, u, v, g_dt);
   setInputs(st, in);
   for (int i = 0; i < N; ++i) { s[i] = g_x[i] + g_dt * ud[i]; }
   MockRes::R(s, R);
   st.Mult(v, r);
   for (int i = 0; i < N; ++i) { vp_eq("residual at the current rate", r(i), ud[i] + R[i]); }
   for (int i = 0; i < N; ++i) { s[i] = g_x[i] + g_dt * tr[i]; }
   MockRes::R(s, R);
   st.Mult(w, r);
   for (int i = 0; i < N; ++i) { vp_eq("residual at a trial rate", r(i), tr[i] + R[i]); }
}
struct DxdtRes
{
   friend int getSize(const DxdtRes &) { return N; }
   friend void setInputs(DxdtRes &, const miso::MISOInputs &) { }
   friend void setOptions(DxdtRes &, const nlohmann::json &) { }
   friend void evaluate(DxdtRes &, const miso::MISOInputs &in, Vector &r)
   {
      bool has;
      double a[2 * N];
      get_vec(in, "state", a, has); vp_true("state given", has);
      get_vec(in, "dxdt", a + N, has); vp_true("dxdt given", has);
      r(0) = vp_fn("E0", 2 * N, a); r(1) = vp_fn("E1", 2 * N, a);
   }
   friend mfem::Operator &getJacobian(DxdtRes &, const miso::MISOInputs &in, const std::string &wrt)
   {
      bool has;
      get_vec(in, "state", g_rec.s, has); get_vec(in, "dxdt", g_rec.ud, has); g_rec.dt = get_val(in, "dt", has);
      g_rec.wrt_state = wrt == "state"; g_rec.wrt_dxdt = wrt == "dxdt";
      return *g_J;
   }
};
VP_HARNESS(h_odesys)
{
   inputs();
   g_rec = Rec();
   double k[N], a[2 * N];
   real2("k", k, -1, 1);
   miso::MISOResidual res{DxdtRes()};
   miso::ODESystemOperator op(res);
   mfem::DenseMatrix J(N);
   g_J = &J;
   Vector x = vec(g_x), kv = vec(k), r(N);
   r = 3.0;
   op.setParameters(g_dt, &x);
   op.Mult(kv, r);
   vp_reach("odesys");
   for (int i = 0; i < N; ++i) { a[i] = g_x[i] + g_dt * k[i]; a[N + i] = k[i]; }
   vp_eq("r = F(x + dt k, k)", r(0), vp_fn("E0", 2 * N, a)); vp_eq("r = F(x + dt k, k)", r(1), vp_fn("E1", 2 * N, a));
   mfem::Operator &jac = op.GetGradient(kv);
   vp_true("the residual's Jacobian", &jac == &J);
   vp_true("with respect to dxdt", g_rec.wrt_dxdt);
   for (int i = 0; i < N; ++i)
   {
      vp_eq("linearised at x + dt k", g_rec.s[i], a[i]); vp_eq("linearised at k", g_rec.ud[i], k[i]);
      vp_eq("state unchanged", x(i), g_x[i]); vp_eq("slope unchanged", kv(i), k[i]);
   }
   vp_eq("dt passed", g_rec.dt, g_dt);
}
