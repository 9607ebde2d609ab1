// Fixtures of the output, residual and sensitivity integrators: an element with
// arbitrary basis functions at every quadrature point, an isoparametric mapping
// with arbitrary nodes, an arbitrary quadrature rule, a state with renumbered,
// reoriented and transformed degrees of freedom, and arbitrary coefficients.
#ifndef ISO_FIXTURE_HPP
#define ISO_FIXTURE_HPP
#include "vp_harness.hpp"
#include "vp_diff.hpp"
#include "again.hpp"
using mfem::Vector;
using mfem::DenseMatrix;
using mfem::IntegrationPoint;
enum { NQ = 2 };   // quadrature points
static int vp_point(const IntegrationPoint &ip) { return ip.x < 0.5 ? 0 : 1; }
struct Rule : mfem::IntegrationRule
{
   Rule(const char *n = "wq") : mfem::IntegrationRule(NQ)
   {
      IntPoint(0).Set(0.25, 0.25, 0.25, vp_real(n, 0, 0.2, 2));
      IntPoint(1).Set(0.75, 0.125, 0.0625, vp_real(n, 1, 0.2, 2));
      vp_world.rule = this;
   }
   double w(int q) { return IntPoint(q).weight; }
};
struct Arg
{
   double a[32]; int n = 0;
   Arg &operator<<(double v) { a[n++] = v; return *this; }
   Arg &operator<<(const Vector &v) { for (int i = 0; i < v.Size(); ++i) { a[n++] = v(i); } return *this; }
   double f(const char *name) const { return vp_fn(name, n, a); }
   double df(const char *name, int k) const { return vp_dfn(name, k, n, a); }
};
// element with dof basis functions; the tables are arbitrary at every point
struct El : mfem::FiniteElement
{
   double s[NQ][6], d[NQ][6][3], v[NQ][6][3], c[NQ][6][3];
   bool vec;
   // precondition of MFEM's elements: the size of the result is set in advance
   static void sized(bool ok) { vp_true("shape functions are written into storage of their size", ok); if (!ok) { abort(); } }
   static mfem::Geometry::Type geom(int D, bool quad) { return D == 1 ? mfem::Geometry::SEGMENT : D == 2 ? (quad ? mfem::Geometry::SQUARE : mfem::Geometry::TRIANGLE) : (quad ? mfem::Geometry::CUBE : mfem::Geometry::TETRAHEDRON); }
   El(int D, int n, int order, bool quad = false, bool nd = false) : mfem::FiniteElement(D, geom(D, quad), n, order, quad ? mfem::FunctionSpace::Qk : mfem::FunctionSpace::Pk), vec(nd)
   {
      if (nd) { range_type = VECTOR; map_type = H_CURL; deriv_type = CURL; vdim = D; cdim = D == 3 ? 3 : 1; }
      else { deriv_type = GRAD; }
   }
   void refined() { func_space = mfem::FunctionSpace::rQk; }
   El &arbitrary(const char *ns, const char *nd)
   {
      for (int q = 0; q < NQ; ++q) { for (int i = 0; i < dof; ++i) { if (ns) { s[q][i] = vp_real(ns, q * dof + i, -1, 1); } for (int k = 0; k < dim; ++k) { if (nd) { d[q][i][k] = vp_real(nd, (q * dof + i) * dim + k, -1, 1); } } } }
      return *this;
   }
   El &arbitraryV(const char *nv, const char *nc)
   {
      int cd = dim == 3 ? 3 : 1;
      for (int q = 0; q < NQ; ++q) { for (int i = 0; i < dof; ++i) { for (int k = 0; k < dim; ++k) { if (nv) { v[q][i][k] = vp_real(nv, (q * dof + i) * dim + k, -1, 1); } } for (int k = 0; k < cd; ++k) { if (nc) { c[q][i][k] = vp_real(nc, (q * dof + i) * cd + k, -1, 1); } } } }
      return *this;
   }
   void CalcShape(const IntegrationPoint &ip, Vector &o) const override { int q = vp_point(ip); sized(o.Size() == dof); for (int i = 0; i < dof; ++i) { o(i) = s[q][i]; } }
   void CalcDShape(const IntegrationPoint &ip, DenseMatrix &o) const override { int q = vp_point(ip); sized(o.Height() == dof && o.Width() == dim); for (int i = 0; i < dof; ++i) { for (int k = 0; k < dim; ++k) { o(i, k) = d[q][i][k]; } } }
   void CalcVShape(const IntegrationPoint &ip, DenseMatrix &o) const override { int q = vp_point(ip); sized(o.Height() == dof && o.Width() == dim); for (int i = 0; i < dof; ++i) { for (int k = 0; k < dim; ++k) { o(i, k) = v[q][i][k]; } } }
   void CalcVShape(mfem::ElementTransformation &T, DenseMatrix &o) const override
   {
      DenseMatrix r(dof, dim);
      CalcVShape(T.GetIntPoint(), r);
      mfem::Mult(r, T.InverseJacobian(), o);
   }
   void CalcCurlShape(const IntegrationPoint &ip, DenseMatrix &o) const override { int q = vp_point(ip), n = dim == 3 ? 3 : 1; sized(o.Height() == dof && o.Width() == n); for (int i = 0; i < dof; ++i) { for (int k = 0; k < n; ++k) { o(i, k) = c[q][i][k]; } } }
   void CalcPhysCurlShape(mfem::ElementTransformation &T, DenseMatrix &o) const override
   {
      DenseMatrix r(dof, dim == 3 ? 3 : 1);
      CalcCurlShape(T.GetIntPoint(), r);
      if (dim == 3) { mfem::MultABt(r, T.Jacobian(), o); o *= 1.0 / T.Weight(); }
      else { o = r; o *= 1.0 / T.Weight(); }
   }
   // contracts of the developers' branch
   void CalcPhysShapeRevDiff(mfem::ElementTransformation &, const Vector &, DenseMatrix &) const override { }
   void CalcVShapeRevDiff(mfem::ElementTransformation &T, const DenseMatrix &b, DenseMatrix &P) const override
   {
      DenseMatrix r(dof, dim), kb(dim, dim);
      CalcVShape(T.GetIntPoint(), r);
      mfem::MultAtB(r, b, kb);
      dynamic_cast<mfem::IsoparametricTransformation &>(T).InverseJacobianRevDiff(kb, P);
   }
   void CalcPhysCurlShapeRevDiff(mfem::ElementTransformation &T, const DenseMatrix &b, DenseMatrix &P) const override
   {
      auto &iso = dynamic_cast<mfem::IsoparametricTransformation &>(T);
      DenseMatrix o(dof, dim == 3 ? 3 : 1);
      CalcPhysCurlShape(T, o);
      double wb = 0.0;
      for (int i = 0; i < dof; ++i) { for (int k = 0; k < o.Width(); ++k) { wb -= b(i, k) * o(i, k) / T.Weight(); } }
      iso.WeightRevDiff(wb, P);
      if (dim == 3)
      {
         DenseMatrix r(dof, 3), jb(3, 3);
         CalcCurlShape(T.GetIntPoint(), r);
         mfem::MultAtB(b, r, jb);
         jb *= 1.0 / T.Weight();
         iso.JacobianRevDiff(jb, P);
      }
   }
};
// isoparametric mapping with arbitrary nodes; J[q] is the Jacobian at point q
struct Iso : mfem::IsoparametricTransformation
{
   El *me; int n, pd;
   double X[12];   // X[d * n + j], the ordering of the mesh coordinates of an element
   Iso(El &m, int PD, const char *nX, int elem = 3) : me(&m), n(m.GetDof()), pd(PD)
   {
      SetFE(&m);
      // names are spread so that the sampled elements are not degenerate
      for (int d = 0; d < PD; ++d) { for (int j = 0; j < n; ++j) { X[d * n + j] = d == j ? vp_real(nX, d * n + j, 0.7, 1.5) : vp_real(nX, d * n + j, -0.3, 0.3); } }
      Attribute = 1; ElementNo = elem; ElementType = ELEMENT;
      put(X);
      vp_world.trans = this;
   }
   void put(const double *x)
   {
      DenseMatrix P(pd, n);
      for (int d = 0; d < pd; ++d) { for (int j = 0; j < n; ++j) { P(d, j) = x[d * n + j]; } }
      SetPointMat(P);
   }
   int dofs() const { return n * pd; }
   double J(int q, int a, int b) const { double r = 0.0; for (int j = 0; j < n; ++j) { r += X[a * n + j] * me->d[q][j][b]; } return r; }
   double x(int q, int a) const { double r = 0.0; for (int j = 0; j < n; ++j) { r += X[a * n + j] * me->s[q][j]; } return r; }
   double det(int q) const
   {
      if (pd == 1) { return J(q, 0, 0); }
      if (pd == 2) { return J(q, 0, 0) * J(q, 1, 1) - J(q, 0, 1) * J(q, 1, 0); }
      double r = 0.0;
      for (int a = 0; a < 3; ++a) { r += J(q, 0, a) * (J(q, 1, (a + 1) % 3) * J(q, 2, (a + 2) % 3) - J(q, 1, (a + 2) % 3) * J(q, 2, (a + 1) % 3)); }
      return r;
   }
   double adj(int q, int a, int b) const
   {
      if (pd == 1) { return 1.0; }
      if (pd == 2) { return a == b ? J(q, 1 - a, 1 - a) : -J(q, a, b); }
      int r0 = (b + 1) % 3, r1 = (b + 2) % 3, c0 = (a + 1) % 3, c1 = (a + 2) % 3;
      return J(q, r0, c0) * J(q, r1, c1) - J(q, r0, c1) * J(q, r1, c0);
   }
   void valid() { for (int q = 0; q < NQ; ++q) { vp_assume(det(q) > 0.1); } }
};
// mesh element: PD nodes, basis gradients close to a unit matrix
struct MeshEl : El
{
   MeshEl(int D, const char *ns = "mN", const char *nd = nullptr, bool quad = false, int order = 2) : El(D, D, order, quad)
   {
      static const double c0[3][3] = {{1, 0.25, -0.125}, {0, 1, 0.5}, {0.25, 0, 1}}, c1[3][3] = {{1, 0, 0.5}, {-0.25, 1, 0}, {0.125, 0.25, 1}};
      for (int q = 0; q < NQ; ++q)
         for (int j = 0; j < D; ++j)
         {
            s[q][j] = vp_real(ns, q * D + j, -1, 1);
            for (int k = 0; k < D; ++k) { d[q][j][k] = nd ? (j == k ? vp_real(nd, (q * D + j) * D + k, 0.7, 1.4) : vp_real(nd, (q * D + j) * D + k, -0.25, 0.25)) : (q ? c1[j][k] : c0[j][k]); }
         }
   }
};
// boundary face of an element: its own nodes are arbitrary, the points of the element are those of the rule
struct FaceEl : mfem::FiniteElement
{
   int D;
   FaceEl(int D) : mfem::FiniteElement(D - 1, D == 2 ? mfem::Geometry::SEGMENT : mfem::Geometry::TRIANGLE, D, 1), D(D) { }
   // the reference coordinates of the points identify them
   void CalcShape(const IntegrationPoint &ip, Vector &o) const override { o(1) = ip.x; if (D == 3) { o(2) = ip.y; } o(0) = 1.0 - ip.x - (D == 3 ? ip.y : 0.0); }
   void CalcDShape(const IntegrationPoint &, DenseMatrix &o) const override { o = 0.0; for (int k = 0; k < D - 1; ++k) { o(0, k) = -1.0; o(k + 1, k) = 1.0; } }
};
struct BdrFace : mfem::FaceElementTransformations
{
   FaceEl fe; int D; double Y[9];
   BdrFace(Iso &t, const char *n) : fe(t.pd), D(t.pd)
   {
      SetFE(&fe);
      DenseMatrix P(D, D), E(D, D);
      for (int d = 0; d < D; ++d) { for (int j = 0; j < D; ++j) { Y[d * D + j] = vp_real(n, d * D + j, -1, 1); P(d, j) = Y[d * D + j]; } }
      SetPointMat(P);
      Attribute = 1; ElementNo = 7; ElementType = FACE;
      Elem1 = &t; Elem2 = nullptr; Elem1No = t.ElementNo; Elem2No = -1;
      // face (s,t) -> element (s,t,0): the point of the element is the point of the rule
      E = 0.0;
      for (int j = 1; j < D; ++j) { E(j - 1, j) = 1.0; }
      Loc1.Transf.SetFE(&fe); Loc1.Transf.SetPointMat(E);
      SetConfigurationMask(HAVE_ELEM1 | HAVE_LOC1 | HAVE_FACE);
      vp_world.face = this;
   }
   // scaled normal
   double normal(int, int a) const
   {
      auto e = [&](int d, int k) { return Y[d * D + k] - Y[d * D]; };
      if (D == 2) { return a == 0 ? e(1, 1) : -e(0, 1); }
      int b = (a + 1) % 3, c = (a + 2) % 3;
      return e(b, 1) * e(c, 2) - e(c, 1) * e(b, 2);
   }
};
struct DofTr : mfem::DofTransformation
{
   DofTr(int n) : mfem::DofTransformation(n) { }
   static double t(int i) { return 2 << i; }
   void TransformPrimal(double *v) const override { for (int i = 0; i < size_; ++i) { v[i] /= t(i); } }
   void InvTransformPrimal(double *v) const override { for (int i = 0; i < size_; ++i) { v[i] *= t(i); } }
   void TransformDual(double *) const override { abort(); }
   void InvTransformDual(double *) const override { abort(); }
   using mfem::DofTransformation::TransformPrimal;
   using mfem::DofTransformation::InvTransformPrimal;
};
// field on the element: el is what the element sees, stored renumbered, reoriented, transformed
struct Field : mfem::GridFunction
{
   VpSpace sp; DofTr dt; Vector el;
   Field(const mfem::FiniteElement *f, const char *n, bool tr = true, double lo = -1, double hi = 1, int vdim = 1) : sp(f, tr ? &dt : nullptr), dt(vdim * f->GetDof())
   {
      fes = &sp;
      const int k = vdim * f->GetDof();
      SetSize(k);
      el.SetSize(k); sp.vd.SetSize(k);
      for (int i = 0; i < k; ++i)
      {
         int at = (i + 1) % k;
         bool flip = tr && i == 0;
         sp.vd[i] = flip ? -1 - at : at;
         el(i) = vp_real(n, i, lo, hi);
         (*this)(at) = (flip ? -el(i) : el(i)) / (tr ? DofTr::t(i) : 1.0);
      }
   }
};
// position of a point and what its adjoint adds to the nodes
static void vp_pos(mfem::ElementTransformation &T, const IntegrationPoint &ip, Vector &x) { T.Transform(ip, x); }
static void vp_pos_bar(mfem::ElementTransformation &T, const IntegrationPoint &ip, int d, double b, DenseMatrix &P)
{
   auto &iso = dynamic_cast<mfem::IsoparametricTransformation &>(T);
   Vector s(iso.GetFE()->GetDof());
   iso.GetFE()->CalcShape(ip, s);
   for (int j = 0; j < s.Size(); ++j) { P(d, j) += b * s(j); }
}
struct Coef : mfem::Coefficient
{
   const char *n;
   Coef(const char *name) : n(name) { }
   double Eval(mfem::ElementTransformation &T, const IntegrationPoint &ip) override
   {
      vp_true("the transformation stands at the point where the coefficient is evaluated", &T.GetIntPoint() == &ip);
      Vector x; vp_pos(T, ip, x); Arg a; a << x; return a.f(n);
   }
   void EvalRevDiff(const double b, mfem::ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P) override
   {
      Vector x; vp_pos(T, ip, x); Arg a; a << x;
      for (int d = 0; d < x.Size(); ++d) { vp_pos_bar(T, ip, d, b * a.df(n, d), P); }
   }
   double at(const Iso &t, int q) const { Arg a; for (int d = 0; d < t.pd; ++d) { a << t.x(q, d); } return a.f(n); }
};
struct VCoef : mfem::VectorCoefficient
{
   const char *const *n;
   VCoef(const char *const *names, int dim) : mfem::VectorCoefficient(dim), n(names) { }
   void Eval(Vector &v, mfem::ElementTransformation &T, const IntegrationPoint &ip) override
   {
      vp_true("the transformation stands at the point where the coefficient is evaluated", &T.GetIntPoint() == &ip);
      Vector x; vp_pos(T, ip, x); Arg a; a << x;
      v.SetSize(vdim);
      for (int k = 0; k < vdim; ++k) { v(k) = a.f(n[k]); }
   }
   void EvalRevDiff(const Vector &b, mfem::ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P) override
   {
      Vector x; vp_pos(T, ip, x); Arg a; a << x;
      for (int k = 0; k < vdim; ++k) { for (int d = 0; d < x.Size(); ++d) { vp_pos_bar(T, ip, d, b(k) * a.df(n[k], d), P); } }
   }
   double at(const Iso &t, int q, int k) const { Arg a; for (int d = 0; d < t.pd; ++d) { a << t.x(q, d); } return a.f(n[k]); }
};
static const char *const VN[3] = {"V0", "V1", "V2"};
#ifdef VP_NATIVE
// base-class bodies nothing here reaches (the library lacks them)
namespace mfem
{
void FiniteElement::CalcPhysShapeRevDiff(ElementTransformation &, const Vector &, DenseMatrix &) const { abort(); }
void FiniteElement::CalcVShapeRevDiff(ElementTransformation &, const DenseMatrix &, DenseMatrix &) const { abort(); }
void FiniteElement::CalcPhysCurlShapeRevDiff(ElementTransformation &, const DenseMatrix &, DenseMatrix &) const { abort(); }
}
#if defined(MISO_COEFFICIENT) && !defined(VP_COEFFICIENT_CPP)
void miso::StateCoefficient::EvalRevDiff(double, mfem::ElementTransformation &, const mfem::IntegrationPoint &, double, mfem::DenseMatrix &) { abort(); }
void miso::VectorStateCoefficient::EvalRevDiff(const mfem::Vector &, mfem::ElementTransformation &, const mfem::IntegrationPoint &, double, mfem::DenseMatrix &) { abort(); }
#endif
#endif
#ifdef MISO_COEFFICIENT
// coefficients of the position and a state, with their contracts: exact state and node derivatives
// a name has the form F, its derivatives are vp_dfn
struct SArg : Arg
{
   const char *n;
   SArg(const char *name) : n(name) { }
   double v() const { return f(n); }
   double d(int k) const { return df(n, k); }
   double dd(int j, int k) const { char b[40] = "D"; b[1] = (char)('0' + j); b[2] = '@'; int i = 0; for (; n[i]; ++i) { b[3 + i] = n[i]; } b[3 + i] = 0; return df(b, k); }
};
static SArg vp_sarg(const char *n, mfem::ElementTransformation &T, const IntegrationPoint &ip, int m, const double *s)
{
   vp_true("the transformation stands at the point where the coefficient is evaluated", &T.GetIntPoint() == &ip);
   Vector x; vp_pos(T, ip, x); SArg a(n); a << x;
   for (int k = 0; k < m; ++k) { a << s[k]; }
   return a;
}
static SArg vp_sarg(const char *n, const Iso &t, int q, int m, const double *s)
{
   SArg a(n);
   for (int d = 0; d < t.pd; ++d) { a << t.x(q, d); }
   for (int k = 0; k < m; ++k) { a << s[k]; }
   return a;
}
static void vp_sarg_bar(const SArg &a, double b, mfem::ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P)
{
   for (int d = 0; d < T.GetSpaceDim(); ++d) { vp_pos_bar(T, ip, d, b * a.d(d), P); }
}
struct SCoef : miso::StateCoefficient
{
   const char *n;
   SCoef(const char *name) : n(name) { }
   using miso::StateCoefficient::Eval;
   using miso::StateCoefficient::EvalRevDiff;
   double Eval(mfem::ElementTransformation &T, const IntegrationPoint &ip, double s) override { return vp_sarg(n, T, ip, 1, &s).v(); }
   double EvalStateDeriv(mfem::ElementTransformation &T, const IntegrationPoint &ip, double s) override { return vp_sarg(n, T, ip, 1, &s).d(T.GetSpaceDim()); }
   double EvalState2ndDeriv(mfem::ElementTransformation &T, const IntegrationPoint &ip, const double s) override { return vp_sarg(n, T, ip, 1, &s).dd(T.GetSpaceDim(), T.GetSpaceDim()); }
   void EvalRevDiff(double b, mfem::ElementTransformation &T, const IntegrationPoint &ip, double s, DenseMatrix &P) override { vp_sarg_bar(vp_sarg(n, T, ip, 1, &s), b, T, ip, P); }
   double at(const Iso &t, int q, double s) const { return vp_sarg(n, t, q, 1, &s).v(); }
};
struct SVCoef : miso::VectorStateCoefficient
{
   const char *const *n;
   SVCoef(const char *const *names, int dim) : miso::VectorStateCoefficient(dim), n(names) { }
   using miso::VectorStateCoefficient::Eval;
   using miso::VectorStateCoefficient::EvalRevDiff;
   void Eval(Vector &v, mfem::ElementTransformation &T, const IntegrationPoint &ip, double s) override { v.SetSize(vdim); for (int k = 0; k < vdim; ++k) { v(k) = vp_sarg(n[k], T, ip, 1, &s).v(); } }
   void EvalStateDeriv(Vector &v, mfem::ElementTransformation &T, const IntegrationPoint &ip, double s) override { v.SetSize(vdim); for (int k = 0; k < vdim; ++k) { v(k) = vp_sarg(n[k], T, ip, 1, &s).d(T.GetSpaceDim()); } }
   void EvalRevDiff(const Vector &b, mfem::ElementTransformation &T, const IntegrationPoint &ip, double s, DenseMatrix &P) override { for (int k = 0; k < vdim; ++k) { vp_sarg_bar(vp_sarg(n[k], T, ip, 1, &s), b(k), T, ip, P); } }
   double at(const Iso &t, int q, double s, int k) const { return vp_sarg(n[k], t, q, 1, &s).v(); }
};
#endif
// g[i] = d f(x) / d x_i of the code's own scalar
template <class F> void gradient(F f, double *x, int n, double *g)
{
   if (vp_symbolic()) { double r = f(x); vp_eq("evaluated again, the result is the same", f(x), r); for (int i = 0; i < n; ++i) { g[i] = vp_diff(r, x[i]); } return; }
   for (int i = 0; i < n; ++i) { g[i] = vp_d(f, x, i); }
}
template <class F> void jacobian(F a, double *x, int n, int m, double *J)
{
   if (vp_symbolic())
   {
      double *r = new double[m];
      a(x, r);
      for (int i = 0; i < m; ++i) { for (int j = 0; j < n; ++j) { J[i * n + j] = vp_diff(r[i], x[j]); } }
      delete[] r;
      return;
   }
   for (int i = 0; i < m; ++i) { for (int j = 0; j < n; ++j) { J[i * n + j] = vp_d([&](double *y) { double r[16]; a(y, r); return r[i]; }, x, j); } }
}
// the element vector is the exact derivative of the element functional in the state
template <class E, class V> void stateSens(E energy, V vec, Vector &u, const char *label)
{
   const int n = u.Size();
   double g[16];
   gradient([&](double *y) { Vector v(y, n); return energy(v); }, u.GetData(), n, g);
   Vector e;
   vp_twice(e, [&](Vector &o) { vec(u, o); });
   vp_ieq("one sensitivity per degree of freedom", e.Size(), n);
   for (int i = 0; i < n; ++i) { vp_eq(label, e(i), g[i]); }
}
// the mesh sensitivity is the exact derivative of the functional in the node coordinates
template <class T, class E, class S> void meshSens(T &t, E energy, S sens, const char *label, int lo = 0, int hi = 16)
{
   const int n = t.dofs();
   double g[16];
   vp_world.asked = 0;
   gradient([&](double *x) { t.put(x); return energy(); }, t.X, n, g);
   t.put(t.X);
   const int o = vp_world.order, ge = vp_world.geom, asked = vp_world.asked;
   Vector m;
   vp_twice(m, sens);
   if (asked) { vp_ieq("sensitivity and functional use the same quadrature order", vp_world.order, o); vp_ieq("sensitivity and functional use the same quadrature geometry", vp_world.geom, ge); }
   vp_ieq("one mesh sensitivity per node coordinate", m.Size(), n);
   // node coordinates lo..hi-1
   for (int i = lo; i < n && i < hi; ++i) { vp_eq(label, m(i), g[i]); }
}
#endif
