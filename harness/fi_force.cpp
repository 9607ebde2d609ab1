// VP-DEFS -Doverride=
// VP-USE ^h_ : _ZN4miso12SurfaceForceILi2EE12calcBndryFunERKN4mfem6VectorES5_dS5_RKNS2_11DenseMatrixE => contract_fun2
// VP-USE ^h_ : _ZN4miso12SurfaceForceILi3EE12calcBndryFunERKN4mfem6VectorES5_dS5_RKNS2_11DenseMatrixE => contract_fun3
// VP-USE ^h_ : _ZN4miso12SurfaceForceILi2EE20calcBndryFunJacStateERKN4mfem6VectorES5_dS5_RKNS2_11DenseMatrixERS3_ => contract_state2
// VP-USE ^h_ : _ZN4miso12SurfaceForceILi3EE20calcBndryFunJacStateERKN4mfem6VectorES5_dS5_RKNS2_11DenseMatrixERS3_ => contract_state3
// VP-USE ^h_ : _ZN4miso12SurfaceForceILi2EE17calcBndryFunJacDwERKN4mfem6VectorES5_dS5_RKNS2_11DenseMatrixERS6_ => contract_dw2
// VP-USE ^h_ : _ZN4miso12SurfaceForceILi3EE17calcBndryFunJacDwERKN4mfem6VectorES5_dS5_RKNS2_11DenseMatrixERS6_ => contract_dw3
// Surface force on an element's boundary face (navier_stokes_integ_def.hpp): the functional
// and its gradient in the element's state. The pointwise force is replaced by an arbitrary
// smooth function; that its Jacobians are its derivatives is proved in fi_ns.
#include "std_model.hpp"
#include "mfem_fe_model.hpp"
#include "mfem_iso_priv.hpp"
#include "sbp_fe.cpp"
#include "orthopoly.cpp"
#include "utils.cpp"
#include "miso_input.cpp"
#include "euler_integ.hpp"
#include "navier_stokes_integ.hpp"
#include "fe_fixture.hpp"
#ifndef VP_NATIVE
static double vforce(const Vector &x, const Vector &n, double jac, const Vector &u, const DenseMatrix &Dw) { Arg a; a << x << n << jac << u << Dw; return a.f("force"); }
static void vstate(int D, const Vector &x, const Vector &n, double jac, const Vector &u, const DenseMatrix &Dw, Vector &f) { Arg a; a << x << n << jac << u << Dw; for (int k = 0; k < D + 2; ++k) { f(k) = a.df("force", 2 * D + 1 + k); } }
static void vdw(int D, const Vector &x, const Vector &n, double jac, const Vector &u, const DenseMatrix &Dw, DenseMatrix &f) { Arg a; a << x << n << jac << u << Dw; for (int k = 0; k < D + 2; ++k) { for (int d = 0; d < D; ++d) { f(k, d) = a.df("force", 2 * D + 1 + D + 2 + k * D + d); } } }
VP_CONTRACT(contract_fun2) double contract_fun2(miso::SurfaceForce<2> *, const Vector &x, const Vector &n, double jac, const Vector &u, const DenseMatrix &Dw) { return vforce(x, n, jac, u, Dw); }
VP_CONTRACT(contract_fun3) double contract_fun3(miso::SurfaceForce<3> *, const Vector &x, const Vector &n, double jac, const Vector &u, const DenseMatrix &Dw) { return vforce(x, n, jac, u, Dw); }
VP_CONTRACT(contract_state2) void contract_state2(miso::SurfaceForce<2> *, const Vector &x, const Vector &n, double jac, const Vector &u, const DenseMatrix &Dw, Vector &f) { vstate(2, x, n, jac, u, Dw, f); }
VP_CONTRACT(contract_state3) void contract_state3(miso::SurfaceForce<3> *, const Vector &x, const Vector &n, double jac, const Vector &u, const DenseMatrix &Dw, Vector &f) { vstate(3, x, n, jac, u, Dw, f); }
VP_CONTRACT(contract_dw2) void contract_dw2(miso::SurfaceForce<2> *, const Vector &x, const Vector &n, double jac, const Vector &u, const DenseMatrix &Dw, DenseMatrix &f) { vdw(2, x, n, jac, u, Dw, f); }
VP_CONTRACT(contract_dw3) void contract_dw3(miso::SurfaceForce<3> *, const Vector &x, const Vector &n, double jac, const Vector &u, const DenseMatrix &Dw, DenseMatrix &f) { vdw(3, x, n, jac, u, Dw, f); }
#endif
template <int D>
static double qe(const TestSBP<D> &el, const TestMap<D, D> &tr, int d, int i, int j)
{
   double s = 0.0;
   for (int k = 0; k < D; ++k) { if (i == j) { s += tr.adj(i, k, d) * el.q(k, i, i); } else { s += 0.5 * (tr.adj(i, k, d) * el.q(k, i, j) - tr.adj(j, k, d) * el.q(k, j, i)); } }
   return s;
}
template <int D> static void force(bool grad)
{
   enum { N = D + 1, M = D + 2 };
   TestSBP<D> el("H", "Q", "V", 0);
   TestMap<D, D> tr(&el, "J", "X", true);
   TestFace<D - 1> face("w");
   TestFaceMap<D> ft(&face, &tr, NULL, "FJ", "FX");
   TestColl<D - 1> coll(&face);
   adept::Stack st;
   double alpha = vp_real("alpha", -1, -2, 2), Re = vp_real("Re", 0, 0.5, 2), Pr = vp_real("Pr", 0, 0.5, 1), mu = vp_real("mu", 0, 0.5, 1.5);
   Vector qf(M), nf(D), u(M * N);
   auto state = [](Vector &v, int i, int st, const char *n)
   {
      double k = 0.0;
      for (int m = 0; m < M; ++m) { v(m * st + i) = m == 0 ? vp_real(n, m * st + i, 0.6, 2) : m < D + 1 ? vp_real(n, m * st + i, -0.5, 0.5) : vp_real(n, m * st + i, 2, 4); if (m > 0 && m < D + 1) { k += v(m * st + i) * v(m * st + i); } }
      vp_assume(v(i) > 0.0); vp_assume(v((M - 1) * st + i) - 0.5 * k / v(i) > 0.0);
   };
   state(qf, 0, 1, "qfs"); for (int i = 0; i < N; ++i) { state(u, i, N, "u"); }
   for (int d = 0; d < D; ++d) { nf(d) = vp_real("nrm", d, -1, 1); }
   miso::SurfaceForce<D> in(st, &coll, M, Re, Pr, qf, nf, mu, alpha);
   vp_tol(1e-5); vp_reach("force");
   if (grad)
   {
      Vector g; vp_twice(g, [&](Vector &o) { in.AssembleFaceVector(el, el, ft, u, o); });
      vp_ieq("the gradient has one entry per node and state", g.Size(), M * N);
      double J[M * N]; jacobian([&](double *x, double *r) { Vector v(x, M * N); r[0] = in.GetFaceEnergy(el, el, ft, v); }, u.GetData(), M * N, 1, J);
      for (int i = 0; i < M * N; ++i) { vp_eq("the gradient of the surface force is its derivative", g(i), J[i]); }
      return;
   }
   double w[N][M], E = 0.0;
   for (int i = 0; i < N; ++i) { double q[M]; for (int m = 0; m < M; ++m) { q[m] = u(m * N + i); } miso::calcEntropyVars<double, D, false>(q, w[i]); }
   for (int f = 0; f < D; ++f)
   {
      int i = ft.nl[f]; Vector x(D), n(D), q(M); DenseMatrix Dw(M, D);
      for (int d = 0; d < D; ++d) { x(d) = tr.X[i][d]; n(d) = ft.geo.nrm(f, d); }
      for (int m = 0; m < M; ++m) { q(m) = u(m * N + i); for (int d = 0; d < D; ++d) { double s = 0.0; for (int j = 0; j < N; ++j) { s += qe<D>(el, tr, d, i, j) * w[j][m]; } Dw(m, d) = s / (el.h(i) * tr.det(i)); } }
      E += alpha * face.GetNodes().IntPoint(f).weight * in.calcBndryFun(x, n, tr.det(i), q, Dw);
   }
   vp_eq("the surface force is alpha sum_f w_f f(x, n, u, D w)", in.GetFaceEnergy(el, el, ft, u), E);
}
VP_HARNESS(h_force_value_2) { force<2>(false); }
VP_HARNESS(h_force_value_3) { force<3>(false); }
VP_HARNESS(h_force_gradient_2) { force<2>(true); }
VP_HARNESS(h_force_gradient_3) { force<3>(true); }
