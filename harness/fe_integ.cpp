// VP-DEFS -Doverride=
// VP-OPT abort_ok = ^h_none
// Element and face integrators of the SBP discretisation (inviscid_integ_def.hpp).
#include "std_model.hpp"
#include "mfem_fe_model.hpp"
#include "sbp_fe.cpp"
#include "orthopoly.cpp"
#include "utils.cpp"
#include "inviscid_integ_def.hpp"
#include "fe_fixture.hpp"

static const char *FN[4] = {"F0", "F1", "F2", "F3"};
static const char *WN[4] = {"W0", "W1", "W2", "W3"};
template <int D>
struct Inv : miso::InviscidIntegrator<Inv<D>>
{
   Inv(adept::Stack &s, double a) : miso::InviscidIntegrator<Inv<D>>(s, S, a) {}
   double calcVolFun(const Vector &x, const Vector &u) { Arg a; a << x << u; return a.f("vol"); }
   void calcFlux(const Vector &dir, const Vector &u, Vector &f) { Arg a; a << dir << u; for (int m = 0; m < S; ++m) { f(m) = a.f(FN[m]); } }
   void calcFluxJacState(const Vector &dir, const Vector &u, DenseMatrix &j) { Arg a; a << dir << u; for (int m = 0; m < S; ++m) { for (int n = 0; n < S; ++n) { j(m, n) = a.df(FN[m], D + n); } } }
};
template <int D>
static void inviscid(bool grad)
{
   enum { N = D + 1 };
   TestSBP<D> el("H", "Q", "V", 0);
   TestMap<D, D> tr(&el, "J", "X");
   adept::Stack st;
   double alpha = vp_real("alpha", -1, -2, 2);
   Inv<D> in(st, alpha);
   Vector u; states<D>("u", u, N);
   vp_tol(1e-6);
   vp_reach("inviscid");
   if (grad)
   {
      exact(u, [&](Vector &v, Vector &e) { in.AssembleElementVector(el, tr, v, e); }, [&](Vector &v, DenseMatrix &m) { in.AssembleElementGrad(el, tr, v, m); });
      return;
   }
   double ref[S * N], E = 0.0;
   for (int i = 0; i < S * N; ++i) { ref[i] = 0.0; }
   for (int i = 0; i < N; ++i)
   {
      Arg a; for (int d = 0; d < D; ++d) { a << tr.X[i][d]; } for (int m = 0; m < S; ++m) { a << u(m * N + i); }
      E += alpha * a.f("vol") * tr.det(i) * el.h(i);
      for (int d = 0; d < D; ++d)
      {
         Arg b; for (int k = 0; k < D; ++k) { b << tr.adj(i, d, k); } for (int m = 0; m < S; ++m) { b << u(m * N + i); }
         for (int m = 0; m < S; ++m) { for (int j = 0; j < N; ++j) { ref[m * N + j] -= alpha * el.q(d, i, j) * b.f(FN[m]); } }
      }
   }
   Vector e;
   vp_twice(e, [&](auto &vp_o) { in.AssembleElementVector(el, tr, u, vp_o); });
   vp_ieq("element residual has one entry per node and state", e.Size(), S * N);
   for (int i = 0; i < S * N; ++i) { vp_eq("inviscid residual is -alpha sum_d Q_d^T F(adj J_d, u)", e(i), ref[i]); }
   vp_eq("element functional is alpha sum_i H_i |J_i| f(x_i, u_i)", in.GetElementEnergy(el, tr, u), E);
}
VP_HARNESS(h_inv_residual_1) { inviscid<1>(false); }
VP_HARNESS(h_inv_residual_2) { inviscid<2>(false); }
VP_HARNESS(h_inv_residual_3) { inviscid<3>(false); }
VP_HARNESS(h_inv_jacobian_1) { inviscid<1>(true); }
VP_HARNESS(h_inv_jacobian_2) { inviscid<2>(true); }
VP_HARNESS(h_inv_jacobian_3) { inviscid<3>(true); }

// ------------------------------------------------ two-point fluxes
static const char *GN[6] = {"G00", "G01", "G10", "G11", "G20", "G21"}; // direction, component
template <int D>
struct Dyad : miso::DyadicFluxIntegrator<Dyad<D>>
{
   Dyad(adept::Stack &s, double a) : miso::DyadicFluxIntegrator<Dyad<D>>(s, S, a) {}
   // arbitrary symmetric two-point flux
   static double F(int di, int m, const double *a, const double *b) { Arg p, q; for (int k = 0; k < S; ++k) { p << a[k]; } for (int k = 0; k < S; ++k) { p << b[k]; q << b[k]; } for (int k = 0; k < S; ++k) { q << a[k]; } return p.f(GN[2 * di + m]) + q.f(GN[2 * di + m]); }
   static double dF(int di, int m, int k, const double *a, const double *b) { Arg p, q; for (int j = 0; j < S; ++j) { p << a[j]; } for (int j = 0; j < S; ++j) { p << b[j]; q << b[j]; } for (int j = 0; j < S; ++j) { q << a[j]; } return p.df(GN[2 * di + m], k) + q.df(GN[2 * di + m], S + k); }
   void calcFlux(int di, const Vector &a, const Vector &b, Vector &f) { for (int m = 0; m < S; ++m) { f(m) = F(di, m, a.GetData(), b.GetData()); } }
   void calcFluxJacStates(int di, const Vector &a, const Vector &b, DenseMatrix &ja, DenseMatrix &jb)
   {
      for (int m = 0; m < S; ++m) { for (int k = 0; k < S; ++k) { ja(m, k) = dF(di, m, k, a.GetData(), b.GetData()); jb(m, k) = dF(di, m, k, b.GetData(), a.GetData()); } }
   }
};
template <int D>
static void dyadic(bool grad)
{
   enum { N = D + 1 };
   TestSBP<D> el("H", "Q", "V", 0);
   TestMap<D, D> tr(&el, "J", "X");
   adept::Stack st;
   double alpha = vp_real("alpha", -1, -2, 2);
   Dyad<D> in(st, alpha);
   Vector u; states<D>("u", u, N);
   vp_tol(1e-6);
   vp_reach("dyadic");
   if (grad)
   {
      exact(u, [&](Vector &v, Vector &e) { in.AssembleElementVector(el, tr, v, e); }, [&](Vector &v, DenseMatrix &m) { in.AssembleElementGrad(el, tr, v, m); });
      return;
   }
   Vector e;
   vp_twice(e, [&](auto &vp_o) { in.AssembleElementVector(el, tr, u, vp_o); });
   vp_ieq("element residual has one entry per node and state", e.Size(), S * N);
   for (int m = 0; m < S; ++m)
   {
      double tot = 0.0;
      for (int i = 0; i < N; ++i)
      {
         double r = 0.0;
         for (int j = 0; j < N; ++j)
         {
            double a[S], b[S];
            if (j == i) { continue; }
            for (int n = 0; n < S; ++n) { a[n] = u(n * N + i); b[n] = u(n * N + j); }
            for (int d = 0; d < D; ++d)
            {
               double s = 0.0;
               for (int k = 0; k < D; ++k) { s += tr.adj(i, k, d) * el.q(k, i, j) - tr.adj(j, k, d) * el.q(k, j, i); }
               r += alpha * s * Dyad<D>::F(d, m, a, b);
            }
         }
         vp_eq("two-point residual is alpha sum_j S_ij F(u_i, u_j)", e(m * N + i), r);
         tot += e(m * N + i);
      }
      vp_eq("the volume term of an element neither creates nor destroys any conserved quantity", tot, 0.0);
   }
}
VP_HARNESS(h_dyad_residual_1) { dyadic<1>(false); }
VP_HARNESS(h_dyad_residual_2) { dyadic<2>(false); }
VP_HARNESS(h_dyad_residual_3) { dyadic<3>(false); }
VP_HARNESS(h_dyad_jacobian_1) { dyadic<1>(true); }
VP_HARNESS(h_dyad_jacobian_2) { dyadic<2>(true); }
VP_HARNESS(h_dyad_jacobian_3) { dyadic<3>(true); }

// ------------------------------------- local projection stabilisation
static const char *AN[4] = {"A00", "A01", "A10", "A11"};
template <int D>
struct Lps : miso::LPSIntegrator<Lps<D>>
{
   Lps(adept::Stack &s, double a, double c) : miso::LPSIntegrator<Lps<D>>(s, S, a, c) {}
   static double W(int m, const Vector &u) { Arg a; a << u; return a.f(WN[m]); }
   void convertVars(const Vector &u, Vector &w) { for (int m = 0; m < S; ++m) { w(m) = W(m, u); } }
   void convertVarsJacState(const Vector &u, DenseMatrix &j) { Arg a; a << u; for (int m = 0; m < S; ++m) { for (int n = 0; n < S; ++n) { j(m, n) = a.df(WN[m], n); } } }
   void applyScaling(const DenseMatrix &adj, const Vector &u, const Vector &v, Vector &Av)
   {
      Arg a; a << adj << u;
      for (int m = 0; m < S; ++m) { double s = 0.0; for (int n = 0; n < S; ++n) { s += a.f(AN[m * S + n]) * v(n); } Av(m) = s; }
   }
   void applyScalingJacState(const DenseMatrix &adj, const Vector &u, const Vector &v, DenseMatrix &j)
   {
      Arg a; a << adj << u;
      for (int m = 0; m < S; ++m) { for (int k = 0; k < S; ++k) { double s = 0.0; for (int n = 0; n < S; ++n) { s += a.df(AN[m * S + n], D * D + k) * v(n); } j(m, k) = s; } }
   }
   void applyScalingJacV(const DenseMatrix &adj, const Vector &u, DenseMatrix &j)
   {
      Arg a; a << adj << u;
      for (int m = 0; m < S; ++m) { for (int n = 0; n < S; ++n) { j(m, n) = a.f(AN[m * S + n]); } }
   }
};
template <int D>
static void lps(bool grad)
{
   enum { N = D + 1 };
   TestSBP<D> el("H", "Q", "V", D);
   TestMap<D, D> tr(&el, "J", "X");
   adept::Stack st;
   double alpha = vp_real("alpha", -1, -2, 2), coeff = vp_real("coeff", -1, 0, 2);
   Lps<D> in(st, alpha, coeff);
   Vector u; states<D>("u", u, N);
   vp_tol(1e-6);
   vp_reach("lps");
   if (grad)
   {
      exact(u, [&](Vector &v, Vector &e) { in.AssembleElementVector(el, tr, v, e); }, [&](Vector &v, DenseMatrix &m) { in.AssembleElementGrad(el, tr, v, m); });
      return;
   }
   double w[S][N], Pw[S][N], Aw[S][N];
   for (int i = 0; i < N; ++i) { Vector ui(S); for (int m = 0; m < S; ++m) { ui(m) = u(m * N + i); } for (int m = 0; m < S; ++m) { w[m][i] = Lps<D>::W(m, ui); } }
   for (int m = 0; m < S; ++m) { for (int i = 0; i < N; ++i) { Pw[m][i] = 0.0; for (int j = 0; j < N; ++j) { Pw[m][i] += el.p(i, j) * w[m][j]; } } }
   for (int i = 0; i < N; ++i)
   {
      Arg a; for (int k = 0; k < D; ++k) { for (int l = 0; l < D; ++l) { a << tr.adj(i, k, l); } } for (int m = 0; m < S; ++m) { a << u(m * N + i); }
      for (int m = 0; m < S; ++m) { Aw[m][i] = 0.0; for (int n = 0; n < S; ++n) { Aw[m][i] += a.f(AN[m * S + n]) * Pw[n][i]; } }
   }
   Vector e;
   vp_twice(e, [&](auto &vp_o) { in.AssembleElementVector(el, tr, u, vp_o); });
   vp_ieq("element residual has one entry per node and state", e.Size(), S * N);
   double diss = 0.0, ref = 0.0;
   for (int m = 0; m < S; ++m)
   {
      for (int i = 0; i < N; ++i)
      {
         double r = 0.0;
         for (int j = 0; j < N; ++j) { r += el.p(j, i) * el.h(j) * Aw[m][j]; }
         vp_eq("stabilisation is alpha coeff P^T H A P w", e(m * N + i), alpha * coeff * r);
         diss += w[m][i] * e(m * N + i);
         ref += alpha * coeff * el.h(i) * Pw[m][i] * Aw[m][i];
      }
   }
   vp_eq("work of the stabilisation is the form alpha coeff (P w)^T H A (P w)", diss, ref);
}
VP_HARNESS(h_lps_residual_1) { lps<1>(false); }
VP_HARNESS(h_lps_residual_2) { lps<2>(false); }
VP_HARNESS(h_lps_residual_3) { lps<3>(false); }
VP_HARNESS(h_lps_jacobian_1) { lps<1>(true); }
VP_HARNESS(h_lps_jacobian_2) { lps<2>(true); }
VP_HARNESS(h_lps_jacobian_3) { lps<3>(true); }

// ---------------------------------------------------- boundary faces
template <int D>
struct Bnd : miso::InviscidBoundaryIntegrator<Bnd<D>>
{
   Bnd(adept::Stack &s, const mfem::FiniteElementCollection *c, double a) : miso::InviscidBoundaryIntegrator<Bnd<D>>(s, c, S, a) {}
   double calcBndryFun(const Vector &x, const Vector &nrm, const Vector &u) { Arg a; a << x << nrm << u; return a.f("bfun"); }
   void calcFlux(const Vector &x, const Vector &nrm, const Vector &u, Vector &f) { Arg a; a << x << nrm << u; for (int m = 0; m < S; ++m) { f(m) = a.f(FN[m]); } }
   void calcFluxJacState(const Vector &x, const Vector &nrm, const Vector &u, DenseMatrix &j) { Arg a; a << x << nrm << u; for (int m = 0; m < S; ++m) { for (int n = 0; n < S; ++n) { j(m, n) = a.df(FN[m], 2 * D + n); } } }
};
template <int D>
static void boundary(bool grad)
{
   enum { N = D + 1 };
   TestSBP<D> el("H", "Q", "V", 0);
   TestMap<D, D> tr(&el, "J", "X");
   TestFace<D - 1> face("w");
   TestFaceMap<D> ft(&face, &tr, NULL, "FJ", "FX");
   TestColl<D - 1> coll(&face);
   adept::Stack st;
   double alpha = vp_real("alpha", -1, -2, 2);
   Bnd<D> in(st, &coll, alpha);
   Vector u; states<D>("u", u, N);
   vp_tol(1e-6);
   vp_reach("boundary");
   if (grad)
   {
      exact(u, [&](Vector &v, Vector &e) { in.AssembleFaceVector(el, el, ft, v, e); }, [&](Vector &v, DenseMatrix &m) { in.AssembleFaceGrad(el, el, ft, v, m); });
      return;
   }
   double ref[S * N], E = 0.0;
   for (int i = 0; i < S * N; ++i) { ref[i] = 0.0; }
   for (int f = 0; f < D; ++f)
   {
      int i = ft.nl[f];
      double w = face.GetNodes().IntPoint(f).weight;
      Arg a;
      for (int d = 0; d < D; ++d) { a << tr.X[i][d]; }
      for (int d = 0; d < D; ++d) { a << ft.geo.nrm(f, d); }
      for (int m = 0; m < S; ++m) { a << u(m * N + i); }
      E += alpha * w * a.f("bfun");
      for (int m = 0; m < S; ++m) { ref[m * N + i] += alpha * w * a.f(FN[m]); }
   }
   Vector e;
   vp_twice(e, [&](auto &vp_o) { in.AssembleFaceVector(el, el, ft, u, vp_o); });
   vp_ieq("face residual has one entry per node and state", e.Size(), S * N);
   for (int i = 0; i < S * N; ++i) { vp_eq("boundary residual is alpha w_f F(x, n, u) at the node of the element under each face node", e(i), ref[i]); }
   vp_eq("boundary functional is alpha sum_f w_f f(x, n, u)", in.GetFaceEnergy(el, el, ft, u), E);
}
VP_HARNESS(h_bnd_residual_2) { boundary<2>(false); }
VP_HARNESS(h_bnd_residual_3) { boundary<3>(false); }
VP_HARNESS(h_bnd_jacobian_2) { boundary<2>(true); }
VP_HARNESS(h_bnd_jacobian_3) { boundary<3>(true); }

// --------------------------------------------------- interior faces
template <int D>
struct Face : miso::InviscidFaceIntegrator<Face<D>>
{
   Face(adept::Stack &s, const mfem::FiniteElementCollection *c, double a) : miso::InviscidFaceIntegrator<Face<D>>(s, c, S, a) {}
   double calcIFaceFun(const Vector &nrm, const Vector &ul, const Vector &ur) { Arg a; a << nrm << ul << ur; return a.f("ifun"); }
   void calcFlux(const Vector &nrm, const Vector &ul, const Vector &ur, Vector &f) { Arg a; a << nrm << ul << ur; for (int m = 0; m < S; ++m) { f(m) = a.f(FN[m]); } }
   void calcFluxJacState(const Vector &nrm, const Vector &ul, const Vector &ur, DenseMatrix &jl, DenseMatrix &jr)
   {
      Arg a; a << nrm << ul << ur;
      for (int m = 0; m < S; ++m) { for (int n = 0; n < S; ++n) { jl(m, n) = a.df(FN[m], D + n); jr(m, n) = a.df(FN[m], D + S + n); } }
   }
};
template <int D>
static void iface(bool grad)
{
   enum { N = D + 1 };
   TestSBP<D> el("H", "Q", "V", 0), er("Hr", "Qr", "Vr", 0);
   TestMap<D, D> tl(&el, "J", "X"), tr(&er, "Jr", "Xr");
   TestFace<D - 1> face("w");
   TestFaceMap<D> ft(&face, &tl, &tr, "FJ", "FX");
   TestColl<D - 1> coll(&face);
   adept::Stack st;
   double alpha = vp_real("alpha", -1, -2, 2);
   Face<D> in(st, &coll, alpha);
   Vector u; states<D>("u", u, 2 * N);
   vp_tol(1e-6);
   vp_reach("face");
   if (grad)
   {
      exact(u, [&](Vector &v, Vector &e) { in.AssembleFaceVector(el, er, ft, v, e); }, [&](Vector &v, DenseMatrix &m) { in.AssembleFaceGrad(el, er, ft, v, m); });
      return;
   }
   double ref[2 * S * N], E = 0.0;
   for (int i = 0; i < 2 * S * N; ++i) { ref[i] = 0.0; }
   for (int f = 0; f < D; ++f)
   {
      int i = ft.nl[f], j = ft.nr[f];
      double w = face.GetNodes().IntPoint(f).weight;
      Arg a;
      for (int d = 0; d < D; ++d) { a << w * ft.geo.nrm(f, d); }
      for (int m = 0; m < S; ++m) { a << u(m * N + i); }
      for (int m = 0; m < S; ++m) { a << u(S * N + m * N + j); }
      E += alpha * a.f("ifun");
      for (int m = 0; m < S; ++m) { ref[m * N + i] += alpha * a.f(FN[m]); ref[S * N + m * N + j] -= alpha * a.f(FN[m]); }
   }
   Vector e;
   vp_twice(e, [&](auto &vp_o) { in.AssembleFaceVector(el, er, ft, u, vp_o); });
   vp_ieq("face residual has one entry per node and state of both elements", e.Size(), 2 * S * N);
   for (int i = 0; i < 2 * S * N; ++i) { vp_eq("interface residual is +alpha F(w n, uL, uR) on the left, -alpha F on the right", e(i), ref[i]); }
   for (int m = 0; m < S; ++m)
   {
      double t = 0.0;
      for (int i = 0; i < N; ++i) { t += e(m * N + i) + e(S * N + m * N + i); }
      vp_eq("what leaves the left element enters the right one", t, 0.0);
   }
   vp_eq("interface functional is alpha sum_f f(w n, uL, uR)", in.GetFaceEnergy(el, er, ft, u), E);
}
VP_HARNESS(h_face_residual_2) { iface<2>(false); }
VP_HARNESS(h_face_residual_3) { iface<3>(false); }
VP_HARNESS(h_face_jacobian_2) { iface<2>(true); }
VP_HARNESS(h_face_jacobian_3) { iface<3>(true); }

// ---------------------------------------------------- temporal terms
struct Mass : miso::NonlinearMassIntegrator<Mass>
{
   Mass(double a) : miso::NonlinearMassIntegrator<Mass>(S, a) {}
   void convertVars(const Vector &u, Vector &w) { Arg a; a << u; for (int m = 0; m < S; ++m) { w(m) = a.f(WN[m]); } }
   void convertVarsJacState(const Vector &u, DenseMatrix &j) { Arg a; a << u; for (int m = 0; m < S; ++m) { for (int n = 0; n < S; ++n) { j(m, n) = a.df(WN[m], n); } } }
};
template <int D>
static void mass(bool grad)
{
   enum { N = D + 1 };
   TestSBP<D> el("H", "Q", "V", 0);
   TestMap<D, D> tr(&el, "J", "X");
   double alpha = vp_real("alpha", -1, -2, 2);
   Mass in(alpha);
   Vector u; states<D>("u", u, N);
   vp_tol(1e-6);
   vp_reach("mass");
   if (grad)
   {
      exact(u, [&](Vector &v, Vector &e) { in.AssembleElementVector(el, tr, v, e); }, [&](Vector &v, DenseMatrix &m) { in.AssembleElementGrad(el, tr, v, m); });
      return;
   }
   Vector e;
   vp_twice(e, [&](auto &vp_o) { in.AssembleElementVector(el, tr, u, vp_o); });
   vp_ieq("element residual has one entry per node and state", e.Size(), S * N);
   for (int i = 0; i < N; ++i)
   {
      Arg a; for (int m = 0; m < S; ++m) { a << u(m * N + i); }
      for (int m = 0; m < S; ++m) { vp_eq("nonlinear mass term is alpha H_i |J_i| q(u_i)", e(m * N + i), alpha * el.h(i) * tr.det(i) * a.f(WN[m])); }
   }
}
VP_HARNESS(h_mass_residual_1) { mass<1>(false); }
VP_HARNESS(h_mass_residual_2) { mass<2>(false); }
VP_HARNESS(h_mass_residual_3) { mass<3>(false); }
VP_HARNESS(h_mass_jacobian_1) { mass<1>(true); }
VP_HARNESS(h_mass_jacobian_2) { mass<2>(true); }
VP_HARNESS(h_mass_jacobian_3) { mass<3>(true); }
