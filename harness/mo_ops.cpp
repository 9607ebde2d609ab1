// VP-OPT abort_ok = ^h_none
// Operator algebra: SumOfOperators, JacobianFree, BlockJacobiPreconditioner, solver construction.
#include "std_model.hpp"
#include "mfem_model.hpp"
#include "matrix_operators.cpp"
#include "mfem_extensions.cpp"
#include "miso_input.cpp"
#include "relaxed_newton.cpp"
#include "linesearch.cpp"
#include "utils.cpp"
#include "vp_harness.hpp"
using mfem::Vector;
using mfem::DenseMatrix;

// rows x cols operator with arbitrary entries
template <int H, int W>
struct Lin : mfem::Operator
{
   double a[H][W];
   mutable int calls = 0;
   Lin(const char *n) : mfem::Operator(H, W) { for (int i = 0; i < H; ++i) { for (int j = 0; j < W; ++j) { a[i][j] = vp_real(n, i * W + j, -2, 2); } } }
   void Mult(const Vector &x, Vector &y) const override
   {
      ++calls;
      double v[W];
      for (int j = 0; j < W; ++j) { v[j] = x(j); }
      for (int i = 0; i < H; ++i) { y(i) = row(i, v); }
   }
   double row(int i, const double *v) const { double s = 0.0; for (int j = 0; j < W; ++j) { s += a[i][j] * v[j]; } return s; }
};
// the implementation treats coefficients within 1e-16 of 0 and 1 as exactly that
static double coef(const char *n, const char *kind)
{
   int k = vp_choice(kind, 0, 2);
   if (k < 2) { return k; }
   double c = vp_real(n, -1, -2, 2);
   vp_assume(fabs(c) > 1e-16); vp_assume(fabs(c - 1.0) > 1e-16);
   return c;
}
template <int H, int W>
static void sum(bool add)
{
   Lin<H, W> A("A"), B("B");
   double a = coef("alpha", "kind of alpha"), b = coef("beta", "kind of beta"), xv[W];
   Vector x(W), y(H);
   for (int j = 0; j < W; ++j) { xv[j] = vp_real("x", j, -2, 2); x(j) = xv[j]; }
   for (int i = 0; i < H; ++i) { y(i) = vp_real("y", i, -2, 2); }
   vp_reach("sum");
   // an earlier product must not leak into the next one
   miso::SumOfOperators S(add ? 1.0 : a, A, add ? 1.0 : b, B);
   if (add) { Vector z(W), w(H); for (int j = 0; j < W; ++j) { z(j) = vp_real("z", j, -2, 2); } S.Mult(z, w); S.Add(a, B, b, A); }
   S.Mult(x, y);
   vp_ieq("result has one entry per row", y.Size(), H);
   for (int i = 0; i < H; ++i) { vp_eq("y = (alpha A + beta B) x", y(i), add ? a * B.row(i, xv) + b * A.row(i, xv) : a * A.row(i, xv) + b * B.row(i, xv)); }
   for (int j = 0; j < W; ++j) { vp_eq("x is not modified", x(j), xv[j]); }
}
VP_HARNESS(h_sum_square) { sum<2, 2>(false); }
VP_HARNESS(h_sum_add) { sum<2, 2>(true); }
VP_HARNESS(h_sum_tall) { sum<3, 2>(false); }
VP_HARNESS(h_sum_wide) { sum<1, 3>(true); }
VP_HARNESS(h_sum_mismatch)
{
   Lin<2, 2> A("A");
   Lin<2, 3> B("B");
   Lin<3, 2> C("C");
   int n = 0;
   try { miso::SumOfOperators S(1.0, A, 1.0, B); } catch (const miso::MISOException &) { ++n; }
   try { miso::SumOfOperators S(1.0, A, 1.0, C); } catch (const miso::MISOException &) { ++n; }
   vp_reach("mismatch");
   vp_ieq("operators of different sizes are rejected", n, 2);
}
// --------------------------------------------------------- Jacobian-free
static const int N = 2;
static bool g_affine;
static double g_A[N][N], g_b[N], g_u[N], g_pt[N];
static int g_evals;
static DenseMatrix *g_blk[N];
struct Res
{
   friend int getSize(const Res &) { return N; }
   friend MPI_Comm getMPIComm(const Res &) { return MPI_COMM_SELF; }
   friend void setInputs(Res &, const miso::MISOInputs &) { }
   friend void setOptions(Res &, const nlohmann::json &) { }
   static double R(int i, const double *s)
   {
      if (g_affine) { return g_b[i] + g_A[i][0] * s[0] + g_A[i][1] * s[1]; }
      return vp_fn(i ? "R1" : "R0", N, s);
   }
   friend void evaluate(Res &, const miso::MISOInputs &in, Vector &r)
   {
      auto it = in.find("state");
      vp_true("the residual is given the state", it != in.end());
      auto &v = std::get<miso::InputVector>(it->second);
      vp_ieq("the state has the residual's size", v.size, N);
      double s[N] = {v.data[0], v.data[1]};
      for (int i = 0; i < N; ++i) { r(i) = R(i, s); g_pt[i] = s[i]; }
      ++g_evals;
   }
   friend mfem::Operator &getJacobian(Res &, const miso::MISOInputs &, const std::string &) { return *g_blk[0]; }
   friend mfem::Operator &getJacobianBlock(Res &, const miso::MISOInputs &in, int b)
   {
      auto &v = std::get<miso::InputVector>(in.find("state")->second);
      double a[N] = {v.data[0], v.data[1]};
      (*g_blk[b])(0, 0) = vp_fn(b ? "B1" : "B0", N, a);
      return *g_blk[b];
   }
};
static void res_inputs()
{
   for (int i = 0; i < N; ++i)
   {
      g_u[i] = vp_real("u", i, -2, 2); g_b[i] = vp_real("b", i, -2, 2);
      for (int j = 0; j < N; ++j) { g_A[i][j] = vp_real(i ? "A1" : "A0", j, -2, 2); }
   }
   g_evals = 0;
}
static Vector vec(const double *a) { Vector v(N); v(0) = a[0]; v(1) = a[1]; return v; }
template <bool INPUTS>
static void jacfree(bool expl)
{
   res_inputs();
   g_affine = true;
   miso::MISOResidual res{Res()};
   Lin<N, N> E("E");
   double s = coef("scale", "kind of scale"), xv[N];
   miso::JacobianFree J0(res), J1(res, E);
   miso::JacobianFree &J = expl ? J1 : J0;
   Vector u = vec(g_u), x(N), y(N);
   for (int j = 0; j < N; ++j) { xv[j] = vp_real("x", j, -2, 2); x(j) = xv[j]; y(j) = vp_real("y", j, -2, 2); }
   vp_assume(xv[0] != 0.0);
   vp_tol(1e-4);
   vp_reach("jacfree");
   for (int rep = 0; rep < 2; ++rep)
   {
      if (rep) { s = coef("scale2", "kind of scale2"); u(0) = vp_real("v", 0, -2, 2); u(1) = vp_real("v", 1, -2, 2); }
      // the state is copied: later changes of the caller's vector have no effect
      Vector w(u);
      if (INPUTS) { J.setState(miso::MISOInputs{{"state", w}}); } else { J.setState(w); }
      w(0) = 9.0; w(1) = 9.0;
      J.setScaling(s);
      J.Mult(x, y);
      for (int i = 0; i < N; ++i)
      {
         vp_eq("product with the Jacobian of an affine residual is exact", y(i), s * (g_A[i][0] * xv[0] + g_A[i][1] * xv[1]) + (expl ? E.row(i, xv) : 0.0));
         vp_eq("x is not modified", x(i), xv[i]);
      }
   }
}
VP_HARNESS(h_jacfree) { jacfree<false>(false); }
VP_HARNESS(h_jacfree_inputs) { jacfree<true>(false); }
VP_HARNESS(h_jacfree_explicit) { jacfree<false>(true); }
VP_HARNESS(h_jacfree_fd)
{
   res_inputs();
   g_affine = false;
   miso::MISOResidual res{Res()};
   miso::JacobianFree J(res);
   double xv[N];
   Vector u = vec(g_u), x(N), y(N);
   for (int j = 0; j < N; ++j) { xv[j] = vp_real("x", j, -2, 2); x(j) = xv[j]; }
   vp_assume(xv[0] > 1e-8);
   J.setState(u);
   vp_reach("fd");
   g_pt[0] = g_u[0]; g_pt[1] = g_u[1];
   J.Mult(x, y);
   double eps = (g_pt[0] - g_u[0]) / xv[0];
   vp_tol(1e-3);
   vp_lt("forward difference", 0.0, eps);
   vp_le("the perturbation is small", eps * eps * (xv[0] * xv[0] + xv[1] * xv[1]), 1.0001e-10);
   vp_eq("the state is perturbed along x", g_pt[1], g_u[1] + eps * xv[1]);
   for (int i = 0; i < N; ++i) { vp_eq("difference quotient of the residual", y(i) * eps, Res::R(i, g_pt) - Res::R(i, g_u)); }
}
VP_HARNESS(h_jacfree_block)
{
   res_inputs();
   g_affine = true;
   miso::MISOResidual res{Res()};
   DenseMatrix b0(1), b1(1), e0(1), e1(1);
   g_blk[0] = &b0; g_blk[1] = &b1;
   e0(0, 0) = vp_real("e", 0, -2, 2); e1(0, 0) = vp_real("e", 1, -2, 2);
   mfem::Array<int> off(N + 1);
   for (int i = 0; i <= N; ++i) { off[i] = i; }
   mfem::BlockOperator E(off);
   E.SetDiagonalBlock(0, &e0); E.SetDiagonalBlock(1, &e1);
   double s = vp_real("scale", -1, -2, 2);
   bool expl = vp_bool("explicit part");
   miso::JacobianFree J0(res), J1(res, E);
   miso::JacobianFree &J = expl ? J1 : J0;
   Vector u = vec(g_u);
   J.setState(u);
   J.setScaling(s);
   vp_reach("block");
   for (int rep = 0; rep < 2; ++rep)
   {
      for (int i = 0; i < N; ++i)
      {
         auto &blk = dynamic_cast<DenseMatrix &>(J.getDiagonalBlock(i));
         vp_eq("diagonal block = scale dR_i/du_i + explicit block", blk(0, 0), s * vp_fn(i ? "B1" : "B0", N, g_u) + (expl ? (i ? e1(0, 0) : e0(0, 0)) : 0.0));
      }
   }
   Lin<N, N> notblock("L");
   miso::JacobianFree J2(res, notblock);
   J2.setState(u);
   bool caught = false;
   try { J2.getDiagonalBlock(0); } catch (const miso::MISOException &) { caught = true; }
   vp_true("an explicit part that has no blocks is rejected", caught);
}
// ------------------------------------------------ block preconditioner
struct Prec : mfem::Solver
{
   const mfem::Operator *got = nullptr;
   double a, b;
   Prec(int n, double a_, double b_) : mfem::Solver(n), a(a_), b(b_) { }
   void SetOperator(const mfem::Operator &op) override { got = &op; }
   void Mult(const Vector &x, Vector &y) const override { for (int i = 0; i < x.Size(); ++i) { y(i) = a * x(i) + b * x(x.Size() - 1 - i); } }
   void MultTranspose(const Vector &x, Vector &y) const override { for (int i = 0; i < x.Size(); ++i) { y(i) = b * x(i) - a * x(x.Size() - 1 - i); } }
};
VP_HARNESS(h_prec_mult)
{
   // three blocks of sizes 2, 1, 2; the middle one or none preconditioned
   mfem::Array<int> off(4);
   off[0] = 0; off[1] = 2; off[2] = 3; off[3] = 5;
   double a = vp_real("a", -1, -2, 2), b = vp_real("b", -1, -2, 2), c = vp_real("c", -1, -2, 2), xv[5];
   Prec p0(2, a, b), p1(1, c, a), p2(2, b, c);
   bool has0 = vp_bool("block 0 set"), has1 = vp_bool("block 1 set");
   miso::BlockJacobiPreconditioner P(off);
   vp_ieq("size", P.Height(), 5); vp_ieq("blocks", P.NumBlocks(), 3);
   if (has0) { P.SetDiagonalBlock(0, &p0); }
   if (has1) { P.SetDiagonalBlock(1, &p1); }
   P.SetDiagonalBlock(2, &p2);
   Vector x(5), y(5);
   for (int i = 0; i < 5; ++i) { xv[i] = vp_real("x", i, -2, 2); x(i) = xv[i]; y(i) = vp_real("y", i, -2, 2); }
   vp_reach("prec");
   for (int tr = 0; tr < 2; ++tr)
   {
      if (tr) { P.MultTranspose(x, y); } else { P.Mult(x, y); }
      double u0 = tr ? b : a, v0 = tr ? -a : b, u1 = tr ? a : c, v1 = tr ? -c : a, u2 = tr ? c : b, v2 = tr ? -b : c;
      vp_eq("block 0 of the result", y(0), has0 ? u0 * xv[0] + v0 * xv[1] : xv[0]); vp_eq("block 0 of the result", y(1), has0 ? u0 * xv[1] + v0 * xv[0] : xv[1]);
      vp_eq("block 1 of the result", y(2), has1 ? u1 * xv[2] + v1 * xv[2] : xv[2]);
      vp_eq("block 2 of the result", y(3), u2 * xv[3] + v2 * xv[4]); vp_eq("block 2 of the result", y(4), u2 * xv[4] + v2 * xv[3]);
      for (int i = 0; i < 5; ++i) { vp_eq("x is not modified", x(i), xv[i]); }
   }
}
VP_HARNESS(h_prec_setop)
{
   res_inputs();
   g_affine = true;
   mfem::Array<int> off(N + 1);
   for (int i = 0; i <= N; ++i) { off[i] = i; }
   DenseMatrix d0(1), d1(1), o01(1), b0(1), b1(1);
   g_blk[0] = &b0; g_blk[1] = &b1;
   mfem::BlockOperator B(off);
   B.SetBlock(0, 0, &d0); B.SetBlock(1, 1, &d1); B.SetBlock(0, 1, &o01);
   Prec p0(1, 1, 0), p1(1, 1, 0);
   miso::BlockJacobiPreconditioner P(off), Q(off);
   P.SetDiagonalBlock(0, &p0); P.SetDiagonalBlock(1, &p1);
   Q.SetDiagonalBlock(1, &p1);
   vp_reach("setop");
   P.SetOperator(B);
   vp_true("block i gets the i-th diagonal block", p0.got == &d0 && p1.got == &d1);
   p1.got = nullptr;
   Q.SetOperator(B);
   vp_true("unset blocks are skipped", p1.got == &d1);
   miso::MISOResidual res{Res()};
   miso::JacobianFree J(res);
   Vector u = vec(g_u);
   J.setState(u);
   P.SetOperator(J);
   vp_true("block i gets the i-th Jacobian block", p0.got == &b0 && p1.got == &b1);
   vp_eq("evaluated at the state", b0(0, 0), vp_fn("B0", N, g_u)); vp_eq("evaluated at the state", b1(0, 0), vp_fn("B1", N, g_u));
   bool caught = false;
   try { P.SetOperator(d0); } catch (const miso::MISOException &) { caught = true; }
   vp_true("other operators are rejected", caught);
}
// ------------------------------------------------ solver construction
struct Peek : mfem::IterativeSolver
{
   static double rel(const mfem::IterativeSolver &s) { return s.*(&Peek::rel_tol); }
   static double abs(const mfem::IterativeSolver &s) { return s.*(&Peek::abs_tol); }
   static int iter(const mfem::IterativeSolver &s) { return s.*(&Peek::max_iter); }
   static const mfem::Operator *op(const mfem::IterativeSolver &s) { return s.*(&Peek::oper); }
   static mfem::Solver *pr(const mfem::IterativeSolver &s) { return s.*(&Peek::prec); }
   void Mult(const Vector &, Vector &) const override { }
};
template <class S>
static void linear(const char *type, bool with_prec, bool with_abs)
{
   double rt = vp_real("reltol", -1, 0, 1), at = vp_real("abstol", -1, 0, 1);
   nlohmann::json o = nlohmann::json::object();
   o["type"] = type;
   o["reltol"] = rt;
   if (with_abs) { o["abstol"] = at; }
   o["maxiter"] = 37;
   o["printlevel"] = 0;
   Prec p(N, 1, 0);
   auto s = miso::constructLinearSolver(MPI_COMM_SELF, o, with_prec ? &p : nullptr);
   vp_reach("linear");
   auto *t = dynamic_cast<S *>(s.get());
   vp_true("solver of the requested type", t != nullptr);
   if (t == nullptr) { return; }
   vp_eq("relative tolerance", Peek::rel(*t), rt); vp_eq("absolute tolerance", Peek::abs(*t), with_abs ? at : 0.0); vp_ieq("iteration limit", Peek::iter(*t), 37);
   vp_true("preconditioner", Peek::pr(*t) == (with_prec ? &p : nullptr));
}
VP_HARNESS(h_lin_gmres) { linear<mfem::GMRESSolver>("gmres", true, true); }
VP_HARNESS(h_lin_fgmres) { linear<mfem::FGMRESSolver>("fgmres", false, true); }
VP_HARNESS(h_lin_pcg) { linear<mfem::CGSolver>("pcg", true, false); }
VP_HARNESS(h_lin_minres) { linear<mfem::MINRESSolver>("minres", false, false); }
static nlohmann::json nl_options(const char *type, double rt, double at)
{
   nlohmann::json o = nlohmann::json::object();
   o["type"] = type;
   o["reltol"] = rt;
   o["abstol"] = at;
   o["maxiter"] = 11;
   o["printlevel"] = 0;
   return o;
}
template <class S>
static void nonlinear(const char *type)
{
   double rt = vp_real("reltol", -1, 0, 1), at = vp_real("abstol", -1, 0, 1);
   nlohmann::json o = nl_options(type, rt, at);
   Prec p(N, 1, 0);
   auto s = miso::constructNonlinearSolver(MPI_COMM_SELF, o, p);
   vp_reach("nonlinear");
   vp_true("solver of the requested type", dynamic_cast<S *>(s.get()) != nullptr);
   vp_eq("relative tolerance", Peek::rel(*s), rt); vp_eq("absolute tolerance", Peek::abs(*s), at); vp_ieq("iteration limit", Peek::iter(*s), 11);
   vp_true("linear solver", Peek::pr(*s) == &p);
   vp_true("starts from zero", !s->iterative_mode);
}
VP_HARNESS(h_nonlin_newton) { nonlinear<mfem::NewtonSolver>("newton"); }
VP_HARNESS(h_nonlin_inexact) { nonlinear<mfem::NewtonSolver>("inexactnewton"); }
VP_HARNESS(h_nonlin_relaxed) { nonlinear<miso::RelaxedNewton>("relaxednewton"); }
VP_HARNESS(h_nonlin_none)
{
   Prec p(N, 1, 0);
   vp_reach("none");
   vp_true("no solver", miso::constructNonlinearSolver(MPI_COMM_SELF, nl_options("none", 1.0, 1.0), p) == nullptr);
   int n = 0;
   try { miso::constructNonlinearSolver(MPI_COMM_SELF, nl_options("broyden", 1.0, 1.0), p); } catch (const miso::MISOException &) { ++n; }
   try { miso::constructLinearSolver(MPI_COMM_SELF, nl_options("jacobi", 1.0, 1.0), nullptr); } catch (const miso::MISOException &) { ++n; }
   vp_ieq("unknown solver types are rejected", n, 2);
}
