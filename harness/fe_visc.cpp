// VP-DEFS -Doverride=
// Element and face integrators of the viscous terms (viscous_integ_def.hpp).
#include "std_model.hpp"
#include "mfem_fe_model.hpp"
#include "sbp_fe.cpp"
#include "orthopoly.cpp"
#include "utils.cpp"
#include "viscous_integ_def.hpp"
#include "fe_fixture.hpp"

static const char *WN[4] = {"W0", "W1", "W2", "W3"};
static const char *CN[6] = {"C00", "C01", "C10", "C11", "C20", "C21"}; // direction, component
static const char *FN[4] = {"F0", "F1", "F2", "F3"};
struct Vars
{
   static double W(int m, const Vector &u) { Arg a; a << u; return a.f(WN[m]); }
   void convertVars(const Vector &u, Vector &w) { for (int m = 0; m < S; ++m) { w(m) = W(m, u); } }
   void convertVarsJacState(const Vector &u, DenseMatrix &j) { Arg a; a << u; for (int m = 0; m < S; ++m) { for (int n = 0; n < S; ++n) { j(m, n) = a.df(WN[m], n); } } }
};
template <int D>
struct Visc : miso::SymmetricViscousIntegrator<Visc<D>>, Vars
{
   Visc(adept::Stack &s, double a) : miso::SymmetricViscousIntegrator<Visc<D>>(s, S, a) {}
   void applyScaling(int d, const Vector &x, const Vector &u, const DenseMatrix &Dw, Vector &f) { Arg a; a << x << u << Dw; for (int m = 0; m < S; ++m) { f(m) = a.f(CN[2 * d + m]); } }
   void applyScalingJacState(int d, const Vector &x, const Vector &u, const DenseMatrix &Dw, DenseMatrix &j) { Arg a; a << x << u << Dw; for (int m = 0; m < S; ++m) { for (int n = 0; n < S; ++n) { j(m, n) = a.df(CN[2 * d + m], D + n); } } }
   void applyScalingJacDw(int d, const Vector &x, const Vector &u, const DenseMatrix &Dw, std::vector<DenseMatrix> &j)
   {
      Arg a; a << x << u << Dw;
      for (int e = 0; e < D; ++e) { for (int m = 0; m < S; ++m) { for (int n = 0; n < S; ++n) { j[e](m, n) = a.df(CN[2 * d + m], D + S + n * D + e); } } }
   }
};
// entry of the physical-space operator
template <int D>
static double qe(const TestSBP<D> &el, const TestMap<D, D> &tr, int d, int i, int j)
{
   double s = 0.0;
   for (int k = 0; k < D; ++k) { if (i == j) { s += tr.adj(i, k, d) * el.q(k, i, i); } else { s += 0.5 * (tr.adj(i, k, d) * el.q(k, i, j) - tr.adj(j, k, d) * el.q(k, j, i)); } }
   return s;
}
template <int D>
static void gradient(const TestSBP<D> &el, const TestMap<D, D> &tr, const Vector &u, double (*w)[S], int i, Arg &a)
{
   for (int m = 0; m < S; ++m)
   {
      for (int d = 0; d < D; ++d)
      {
         double g = 0.0;
         for (int j = 0; j < D + 1; ++j) { g += qe<D>(el, tr, d, i, j) * w[j][m]; }
         a << g / (el.h(i) * tr.det(i));
      }
   }
}
template <int D>
static void entvars(const Vector &u, double (*w)[S]) { for (int i = 0; i < D + 1; ++i) { Vector ui(S); for (int m = 0; m < S; ++m) { ui(m) = u(m * (D + 1) + i); } for (int m = 0; m < S; ++m) { w[i][m] = Vars::W(m, ui); } } }
template <int D>
static void viscous(int what, int c0 = 0, int c1 = 1 << 20)
{
   enum { N = D + 1 };
   TestSBP<D> el("H", "Q", "V", 0);
   TestMap<D, D> tr(&el, "J", "X", true);
   adept::Stack st;
   double alpha = vp_real("alpha", -1, -2, 2);
   Visc<D> in(st, alpha);
   Vector u; states<D>("u", u, N);
   vp_tol(1e-5);
   vp_reach("viscous");
   if (what == 1)
   {
      exact(u, [&](Vector &v, Vector &e) { in.AssembleElementVector(el, tr, v, e); }, [&](Vector &v, DenseMatrix &m) { in.AssembleElementGrad(el, tr, v, m); }, c0, c1);
      return;
   }
   double w[N][S], ref[S * N], E = 0.0;
   entvars<D>(u, w);
   for (int i = 0; i < S * N; ++i) { ref[i] = 0.0; }
   for (int i = 0; i < N; ++i)
   {
      Arg a;
      for (int d = 0; d < D; ++d) { a << tr.X[i][d]; }
      for (int m = 0; m < S; ++m) { a << u(m * N + i); }
      gradient<D>(el, tr, u, w, i, a);
      for (int d = 0; d < D; ++d) { for (int k = 0; k < N; ++k) { for (int m = 0; m < S; ++m) { ref[m * N + k] += alpha * qe<D>(el, tr, d, i, k) * a.f(CN[2 * d + m]); } } }
   }
   Vector e;
   vp_twice(e, [&](auto &vp_o) { in.AssembleElementVector(el, tr, u, vp_o); });
   vp_ieq("element residual has one entry per node and state", e.Size(), S * N);
   for (int i = 0; i < S * N; ++i) { vp_eq("viscous residual is alpha sum_d Q_d^T C_d(x, u, D w)", e(i), ref[i]); }
   for (int m = 0; m < S; ++m) { for (int i = 0; i < N; ++i) { E += w[i][m] * ref[m * N + i]; } }
   vp_eq("element functional is w^T times the residual", in.GetElementEnergy(el, tr, u), E);
}
VP_HARNESS(h_visc_residual_1) { viscous<1>(0); }
VP_HARNESS(h_visc_residual_2) { viscous<2>(0); }
VP_HARNESS(h_visc_residual_3) { viscous<3>(0); }
VP_HARNESS(h_visc_jacobian_1) { viscous<1>(1); }
VP_HARNESS(h_visc_jacobian_2) { viscous<2>(1); }
// the columns of the three-dimensional Jacobian are proved in eight parts
VP_HARNESS(h_visc_jacobian_3_0) { viscous<3>(1, 0, 1); }
VP_HARNESS(h_visc_jacobian_3_1) { viscous<3>(1, 1, 2); }
VP_HARNESS(h_visc_jacobian_3_2) { viscous<3>(1, 2, 3); }
VP_HARNESS(h_visc_jacobian_3_3) { viscous<3>(1, 3, 4); }
VP_HARNESS(h_visc_jacobian_3_4) { viscous<3>(1, 4, 5); }
VP_HARNESS(h_visc_jacobian_3_5) { viscous<3>(1, 5, 6); }
VP_HARNESS(h_visc_jacobian_3_6) { viscous<3>(1, 6, 7); }
VP_HARNESS(h_visc_jacobian_3_7) { viscous<3>(1, 7, 8); }

// the physical operator is a summation-by-parts operator whatever the mapping is:
// Q_d + Q_d^T is diagonal, so a state with vanishing flux C contributes nothing
template <int D>
static void physop()
{
   enum { N = D + 1 };
   TestSBP<D> el("H", "Q", "V", 0);
   TestMap<D, D> tr(&el, "J", "X");
   vp_reach("physical operator");
   DenseMatrix A[N];
   for (int i = 0; i < N; ++i) { tr.SetIntPoint(&el.GetNodes().IntPoint(i)); A[i].SetSize(D); CalcAdjugate(tr.Jacobian(), A[i]); }
   for (int d = 0; d < D; ++d)
   {
      for (int i = 0; i < N; ++i)
      {
         for (int j = 0; j < N; ++j)
         {
            vp_eq("entry of the physical operator", el.getQEntry(d, i, j, A[i], A[j]), qe<D>(el, tr, d, i, j));
            if (i != j) { vp_eq("physical operator is skew-symmetric off the diagonal", el.getQEntry(d, i, j, A[i], A[j]) + el.getQEntry(d, j, i, A[j], A[i]), 0.0); }
            vp_eq("skew part of the physical operator is skew-symmetric", el.getSkewEntry(d, i, j, A[i], A[j]) + el.getSkewEntry(d, j, i, A[j], A[i]), 0.0);
         }
      }
   }
}
VP_HARNESS(h_visc_operator_1) { physop<1>(); }
VP_HARNESS(h_visc_operator_2) { physop<2>(); }
VP_HARNESS(h_visc_operator_3) { physop<3>(); }

// ---------------------------------------------------- boundary faces
static const char *DN[6] = {"D00", "D01", "D10", "D11", "D20", "D21"};
template <int D>
struct VBnd : miso::ViscousBoundaryIntegrator<VBnd<D>>, Vars
{
   VBnd(adept::Stack &s, const mfem::FiniteElementCollection *c, double a) : miso::ViscousBoundaryIntegrator<VBnd<D>>(s, c, S, a) {}
   double calcBndryFun(const Vector &x, const Vector &n, double jac, const Vector &u, const DenseMatrix &Dw) { Arg a; a << x << n << jac << u << Dw; return a.f("bfun"); }
   void calcFlux(const Vector &x, const Vector &n, double jac, const Vector &u, const DenseMatrix &Dw, Vector &f) { Arg a; a << x << n << jac << u << Dw; for (int m = 0; m < S; ++m) { f(m) = a.f(FN[m]); } }
   void calcFluxDv(const Vector &x, const Vector &n, const Vector &u, DenseMatrix &f) { Arg a; a << x << n << u; for (int d = 0; d < D; ++d) { for (int m = 0; m < S; ++m) { f(m, d) = a.f(DN[2 * d + m]); } } }
   void calcFluxJacState(const Vector &x, const Vector &n, double jac, const Vector &u, const DenseMatrix &Dw, DenseMatrix &j) { Arg a; a << x << n << jac << u << Dw; for (int m = 0; m < S; ++m) { for (int k = 0; k < S; ++k) { j(m, k) = a.df(FN[m], 2 * D + 1 + k); } } }
   void calcFluxJacDw(const Vector &x, const Vector &n, double jac, const Vector &u, const DenseMatrix &Dw, std::vector<DenseMatrix> &j)
   {
      Arg a; a << x << n << jac << u << Dw;
      for (int e = 0; e < D; ++e) { for (int m = 0; m < S; ++m) { for (int k = 0; k < S; ++k) { j[e](m, k) = a.df(FN[m], 2 * D + 1 + S + k * D + e); } } }
   }
   void calcFluxDvJacState(const Vector &x, const Vector &n, const Vector &u, std::vector<DenseMatrix> &j)
   {
      Arg a; a << x << n << u;
      for (int d = 0; d < D; ++d) { for (int m = 0; m < S; ++m) { for (int k = 0; k < S; ++k) { j[d](m, k) = a.df(DN[2 * d + m], 2 * D + k); } } }
   }
};
template <int D>
static void vboundary(bool grad)
{
   enum { N = D + 1 };
   TestSBP<D> el("H", "Q", "V", 0);
   TestMap<D, D> tr(&el, "J", "X", true);
   TestFace<D - 1> face("w");
   TestFaceMap<D> ft(&face, &tr, NULL, "FJ", "FX");
   TestColl<D - 1> coll(&face);
   adept::Stack st;
   double alpha = vp_real("alpha", -1, -2, 2);
   VBnd<D> in(st, &coll, alpha);
   Vector u; states<D>("u", u, N);
   vp_tol(1e-5);
   vp_reach("viscous boundary");
   if (grad)
   {
      exact(u, [&](Vector &v, Vector &e) { in.AssembleFaceVector(el, el, ft, v, e); }, [&](Vector &v, DenseMatrix &m) { in.AssembleFaceGrad(el, el, ft, v, m); });
      return;
   }
   double w[N][S], ref[S * N], E = 0.0;
   entvars<D>(u, w);
   for (int i = 0; i < S * N; ++i) { ref[i] = 0.0; }
   for (int f = 0; f < D; ++f)
   {
      int i = ft.nl[f];
      double wt = face.GetNodes().IntPoint(f).weight;
      Arg a, b;
      for (int d = 0; d < D; ++d) { a << tr.X[i][d]; b << tr.X[i][d]; }
      for (int d = 0; d < D; ++d) { a << ft.geo.nrm(f, d); b << ft.geo.nrm(f, d); }
      a << tr.det(i);
      for (int m = 0; m < S; ++m) { a << u(m * N + i); b << u(m * N + i); }
      gradient<D>(el, tr, u, w, i, a);
      E += alpha * wt * a.f("bfun");
      for (int m = 0; m < S; ++m) { ref[m * N + i] += alpha * wt * a.f(FN[m]); }
      for (int j = 0; j < N; ++j) { for (int d = 0; d < D; ++d) { for (int m = 0; m < S; ++m) { ref[m * N + j] += alpha * wt * qe<D>(el, tr, d, i, j) * b.f(DN[2 * d + m]) / (el.h(i) * tr.det(i)); } } }
   }
   Vector e;
   vp_twice(e, [&](auto &vp_o) { in.AssembleFaceVector(el, el, ft, u, vp_o); });
   vp_ieq("face residual has one entry per node and state", e.Size(), S * N);
   for (int i = 0; i < S * N; ++i) { vp_eq("viscous boundary residual is alpha w_f (F(x, n, u, D w) v + G(x, n, u) . D v)", e(i), ref[i]); }
   vp_eq("viscous boundary functional is alpha sum_f w_f f(x, n, u, D w)", in.GetFaceEnergy(el, el, ft, u), E);
}
VP_HARNESS(h_vbnd_residual_2) { vboundary<2>(false); }
VP_HARNESS(h_vbnd_residual_3) { vboundary<3>(false); }
VP_HARNESS(h_vbnd_jacobian_2) { vboundary<2>(true); }
VP_HARNESS(h_vbnd_jacobian_3) { vboundary<3>(true); }
