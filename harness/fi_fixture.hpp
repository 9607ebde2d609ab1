// Fixtures for the pointwise functions of the flow integrators: arbitrary admissible
// states, directions, gradients, and the comparison of a Jacobian with the derivative.
#ifndef FI_FIXTURE_HPP
#define FI_FIXTURE_HPP
#include "vp_harness.hpp"
#include "vp_diff.hpp"
using mfem::Vector;
using mfem::DenseMatrix;
#ifndef VP_NATIVE
// an arbitrary smooth positive function of its arguments; the taped version records its derivatives
VP_CONTRACT(contract_logavg) double contract_logavg(const double &a, const double &b)
{
   double ab[2] = {a, b}; double r = vp_fn("logavg", 2, ab); vp_assume(r > 0); return r;
}
VP_CONTRACT(contract_logavg_ad) adept::adouble contract_logavg_ad(const adept::adouble &a, const adept::adouble &b)
{
   double ab[2] = {a.v, b.v}; double r = vp_fn("logavg", 2, ab); vp_assume(r > 0);
   return adept::adouble(r, a, vp_dfn("logavg", 0, 2, ab), b, vp_dfn("logavg", 1, 2, ab));
}
#endif
static const char *FLUX = "the integrator's flux is the stated flux";
static const char *JSTATE = "the Jacobian in the state is the derivative of the flux";
static const char *JDIR = "the Jacobian in the direction is the derivative of the flux";
static const char *JLEFT = "the Jacobian in the left state is the derivative of the flux";
static const char *JRIGHT = "the Jacobian in the right state is the derivative of the flux";
#define VP_CASE(name) static void name##_case(); VP_HARNESS(name) { vp_tol(1e-4); name##_case(); vp_reach("end"); } static void name##_case()
#define BOTH(f, h) VP_CASE(h##_1) { f<1>(false); } VP_CASE(h##_2) { f<2>(false); } VP_CASE(h##_3) { f<3>(false); } VP_CASE(h##_dir_1) { f<1>(true); } VP_CASE(h##_dir_2) { f<2>(true); } VP_CASE(h##_dir_3) { f<3>(true); }
#define VARS(f, h) VP_CASE(h##_c1) { f<1, false>(); } VP_CASE(h##_c2) { f<2, false>(); } VP_CASE(h##_c3) { f<3, false>(); } VP_CASE(h##_e1) { f<1, true>(); } VP_CASE(h##_e2) { f<2, true>(); } VP_CASE(h##_e3) { f<3, true>(); }
#define BOTHVARS(f, h) VP_CASE(h##_c1) { f<1, false>(false); } VP_CASE(h##_c2) { f<2, false>(false); } VP_CASE(h##_c3) { f<3, false>(false); } VP_CASE(h##_e1) { f<1, true>(false); } VP_CASE(h##_e2) { f<2, true>(false); } VP_CASE(h##_e3) { f<3, true>(false); } VP_CASE(h##_dir_c1) { f<1, false>(true); } VP_CASE(h##_dir_c2) { f<2, false>(true); } VP_CASE(h##_dir_c3) { f<3, false>(true); } VP_CASE(h##_dir_e1) { f<1, true>(true); } VP_CASE(h##_dir_e2) { f<2, true>(true); } VP_CASE(h##_dir_e3) { f<3, true>(true); }
// an admissible state: positive density and pressure, or entropy variables of such a state
template <int dim, bool ev = false> struct State : Vector
{
   State(const char *n) : Vector(dim + 2)
   {
      double k = 0.0;
      for (int i = 0; i < dim + 2; ++i) { (*this)(i) = ev ? (i == 0 ? vp_real(n, i, 1, 3) : i < dim + 1 ? vp_real(n, i, -0.4, 0.4) : vp_real(n, i, -1.5, -0.6)) : (i == 0 ? vp_real(n, i, 0.6, 2) : i < dim + 1 ? vp_real(n, i, -0.5, 0.5) : vp_real(n, i, 2, 4)); }
      if (ev) { vp_assume((*this)(dim + 1) < 0.0); return; }
      vp_assume((*this)(0) > 0.0);
      vp_assume((miso::pressure<double, dim>(GetData())) > 0.0);
   }
};
template <int n> struct Dir : Vector
{
   Dir(const char *s, bool nz = false) : Vector(n) { double q = 0.0; for (int i = 0; i < n; ++i) { (*this)(i) = vp_real(s, i, -1, 1); q += (*this)(i) * (*this)(i); } if (nz) { vp_assume(q > 0.0); } }
};
template <int dim> struct Mat : DenseMatrix
{
   Vector v;
   Mat(const char *s, int m, int n) : DenseMatrix(m, n) { for (int i = 0; i < m * n; ++i) { GetData()[i] = vp_real(s, i, -1, 1); } v.SetDataAndSize(GetData(), m * n); }
};
static void same(const char *l, const Vector &a, const Vector &b) { for (int i = 0; i < b.Size(); ++i) { vp_eq(l, a(i), b(i)); } }
template <class F> static void derivs(const char *l, Vector &x, int m, F f, const double *J)
{
   if (vp_symbolic())
   {
      Vector o(m); f(o);
      for (int i = 0; i < m; ++i) { for (int j = 0; j < x.Size(); ++j) { vp_eq(l, J[i + j * m], vp_diff(o(i), x(j))); } }
      return;
   }
   Vector a(m), b(m), c(m); f(c);
   for (int j = 0; j < x.Size(); ++j)
   {
      double x0 = x(j), h = 1e-5;
      x(j) = x0 + h; f(a); x(j) = x0 - h; f(b); x(j) = x0;
      for (int i = 0; i < m; ++i)
      {
         double fw = (a(i) - c(i)) / h, bw = (c(i) - b(i)) / h;
         vp_assume(fabs(fw - bw) < 1e-4 * (1 + fabs(fw) + fabs(bw)));   // not at a kink of the flux
         vp_eq(l, J[i + j * m], (a(i) - b(i)) / (2 * h));
      }
   }
}
template <class F> static void jac(const char *l, Vector &x, int m, F f, const DenseMatrix &J)
{
   vp_ieq("the Jacobian has one row per output", J.Height(), m); vp_ieq("the Jacobian has one column per input", J.Width(), x.Size());
   derivs(l, x, m, f, J.GetData());
}
template <class F> static void grad(const char *l, Vector &x, F f, const Vector &g) { derivs(l, x, 1, [&](Vector &o) { o(0) = f(); }, g.GetData()); }
#endif
