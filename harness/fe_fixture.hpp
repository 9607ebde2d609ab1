// Fixtures of the element-integrator contracts: an arbitrary diagonal-norm SBP
// element on the simplex (any norm H, operators Q, basis V), an arbitrary
// curved mapping (any Jacobian at every node), and arbitrary faces.
#ifndef FE_FIXTURE_HPP
#define FE_FIXTURE_HPP
#include "vp_harness.hpp"
#include "again.hpp"
using mfem::Vector;
using mfem::DenseMatrix;
using mfem::IntegrationPoint;
static const int S = 2; // states per node

template <int D>
struct TestSBP : mfem::SBPFiniteElement
{
   enum { N = D + 1 };
   TestSBP(const char *nH, const char *nQ, const char *nV, int nv = 2)
    : mfem::SBPFiniteElement(D, D == 1 ? mfem::Geometry::SEGMENT : D == 2 ? mfem::Geometry::TRIANGLE : mfem::Geometry::TETRAHEDRON, N, 1)
   {
      for (int i = 0; i < N; ++i)
      {
         double c[3] = {0, 0, 0};
         if (i > 0) { c[i - 1] = 1.0; }
         double h = vp_real(nH, i, 0.2, 2);
         vp_assume(h > 0);
         H(i) = h;
         Nodes.IntPoint(i).Set(c[0], c[1], c[2], h);
         for (int d = 0; d < D; ++d) { x(i, d) = c[d]; }
      }
      for (int d = 0; d < D; ++d)
      {
         Q[d].SetSize(N);
         for (int i = 0; i < N; ++i) { for (int j = 0; j < N; ++j) { Q[d](j, i) = vp_real(nQ, (d * N + i) * N + j, -2, 2); } } // stored transposed
      }
      V.SetSize(N, nv);
      for (int i = 0; i < N; ++i) { for (int k = 0; k < nv; ++k) { V(i, k) = nv ? vp_real(nV, i * nv + k, -2, 2) : 0.0; } }
   }
   double q(int d, int i, int j) const { return Q[d](j, i); }
   double h(int i) const { return H(i); }
   double v(int i, int k) const { return V(i, k); }
   int nv() const { return V.Width(); }
   double p(int i, int j) const { double s = i == j; for (int k = 0; k < nv(); ++k) { s -= V(i, k) * V(j, k) * H(j); } return s; }
   const DenseMatrix &coords() const { return x; }
   DenseMatrix &mcoords() { return x; }
   void CalcShape(const IntegrationPoint &, Vector &) const override { abort(); }
   void CalcDShape(const IntegrationPoint &, DenseMatrix &) const override { abort(); }
};
// nodal face element on the simplex of dimension R (R = 1: segment, 2: triangle)
template <int R>
struct TestFace : mfem::NodalFiniteElement
{
   enum { N = R + 1 };
   TestFace(const char *nw) : mfem::NodalFiniteElement(R, R == 1 ? mfem::Geometry::SEGMENT : mfem::Geometry::TRIANGLE, N, 1)
   {
      for (int i = 0; i < N; ++i) { Nodes.IntPoint(i).Set(i == 1 ? 1.0 : 0.0, i == 2 ? 1.0 : 0.0, 0.0, vp_real(nw, i, 0.1, 2)); }
   }
   void CalcShape(const IntegrationPoint &ip, Vector &s) const override
   {
      s(0) = 1.0 - ip.x; s(1) = ip.x;
      if (R == 2) { s(0) = 1.0 - ip.x - ip.y; s(2) = ip.y; }
   }
   void CalcDShape(const IntegrationPoint &, DenseMatrix &) const override { abort(); }
};
// mapping with an arbitrary Jacobian (PD x RD) and position at each node
template <int PD, int RD>
struct TestMap : mfem::ElementTransformation
{
   const mfem::FiniteElement *fe;
   double J[4][3][3], X[4][3];
   int n;
   TestMap(const mfem::FiniteElement *f, const char *nJ, const char *nX, bool invertible = false) : fe(f), n(f->GetDof())
   {
      for (int i = 0; i < n; ++i)
      {
         for (int a = 0; a < PD; ++a)
         {
            X[i][a] = vp_real(nX, i * PD + a, -1, 1);
            for (int b = 0; b < RD; ++b) { J[i][a][b] = invertible ? vp_real(nJ, (i * PD + a) * RD + b, a == b ? 0.6 : -0.3, a == b ? 1.5 : 0.3) : vp_real(nJ, (i * PD + a) * RD + b, -1.5, 1.5); }
         }
         if (invertible) { vp_assume(det(i) > 0.0); }
      }
   }
   int node(const IntegrationPoint &ip)
   {
      for (int i = 0; i < n; ++i)
      {
         const IntegrationPoint &p = fe->GetNodes().IntPoint(i);
         if (p.x == ip.x && (RD < 2 || p.y == ip.y) && (RD < 3 || p.z == ip.z)) { return i; }
      }
      abort();
   }
   const DenseMatrix &EvalJacobian() override
   {
      int i = node(*IntPoint);
      dFdx.SetSize(PD, RD);
      for (int a = 0; a < PD; ++a) { for (int b = 0; b < RD; ++b) { dFdx(a, b) = J[i][a][b]; } }
      EvalState |= JACOBIAN_MASK;
      return dFdx;
   }
   const DenseMatrix &EvalHessian() override { abort(); }
   void Transform(const IntegrationPoint &ip, Vector &v) override { int i = node(ip); v.SetSize(PD); for (int a = 0; a < PD; ++a) { v(a) = X[i][a]; } }
   void Transform(const mfem::IntegrationRule &, DenseMatrix &) override { abort(); }
   void Transform(const DenseMatrix &, DenseMatrix &) override { abort(); }
   int Order() const override { return 1; }
   int OrderJ() const override { return 1; }
   int OrderW() const override { return 1; }
   int OrderGrad(const mfem::FiniteElement *) const override { return 1; }
   int GetSpaceDim() const override { return PD; }
   int TransformBack(const Vector &, IntegrationPoint &) override { abort(); }
   // reference: determinant and adjugate (a, b) = d(xi_a)/d(x_b) * det
   double det(int i) const
   {
      const double (*j)[3] = J[i];
      if (PD == 1) { return j[0][0]; }
      if (PD == 2) { return j[0][0] * j[1][1] - j[0][1] * j[1][0]; }
      return j[0][0] * (j[1][1] * j[2][2] - j[1][2] * j[2][1]) - j[0][1] * (j[1][0] * j[2][2] - j[1][2] * j[2][0]) + j[0][2] * (j[1][0] * j[2][1] - j[1][1] * j[2][0]);
   }
   double adj(int i, int a, int b) const
   {
      const double (*j)[3] = J[i];
      if (PD == 1) { return 1.0; }
      if (PD == 2) { return a == b ? j[1 - a][1 - a] : -j[a][b]; }
      int r0 = (b + 1) % 3, r1 = (b + 2) % 3, c0 = (a + 1) % 3, c1 = (a + 2) % 3;
      return j[r0][c0] * j[r1][c1] - j[r0][c1] * j[r1][c0];
   }
   // face normal scaled by the area
   double nrm(int i, int a) const
   {
      const double (*j)[3] = J[i];
      if (PD == 2) { return a == 0 ? j[1][0] : -j[0][0]; }
      int p = (a + 1) % 3, q = (a + 2) % 3;
      return j[p][0] * j[q][1] - j[q][0] * j[p][1];
   }
};
template <int R>
struct TestColl : mfem::FiniteElementCollection
{
   const mfem::FiniteElement *f;
   mutable int asked = -1;
   TestColl(const mfem::FiniteElement *x) : f(x) {}
   const mfem::FiniteElement *FiniteElementForGeometry(mfem::Geometry::Type g) const override
   {
      if (g != (R == 1 ? mfem::Geometry::SEGMENT : mfem::Geometry::TRIANGLE)) { abort(); }
      return f;
   }
   int DofForGeometry(mfem::Geometry::Type) const override { abort(); }
   const int *DofOrderForOrientation(mfem::Geometry::Type, int) const override { abort(); }
   const char *Name() const override { return "test"; }
   int GetContType() const override { return DISCONTINUOUS; }
};
// the face k of the left element meets the right element: face node i is node L[i] on the left and R[i] on the right
template <int D>
struct TestFaceMap : mfem::FaceElementTransformations
{
   TestFace<D - 1> *f;
   TestMap<D, D - 1> geo;
   int nl[3], nr[3];
   TestFaceMap(TestFace<D - 1> *face, mfem::ElementTransformation *e1, mfem::ElementTransformation *e2, const char *nJ, const char *nX)
    : f(face), geo(face, nJ, nX)
   {
      Elem1 = e1; Elem2 = e2; Face = &geo;
      for (int i = 0; i < D; ++i) { nl[i] = i + 1; nr[i] = D - 1 - i; }
      set(Loc1, nl);
      if (e2) { set(Loc2, nr); }
   }
   void set(mfem::IntegrationPointTransformation &L, const int *nd)
   {
      DenseMatrix pm(D, D);
      pm = 0.0;
      for (int i = 0; i < D; ++i) { if (nd[i] > 0) { pm(nd[i] - 1, i) = 1.0; } }
      L.Transf.SetFE(f);
      L.Transf.SetPointMat(pm);
   }
};
// derivative of the vector-valued code a(x, r) with respect to x: J[i * n + j] = d r_i / d x_j
template <class F> void jacobian(F a, double *x, int n, int m, double *J)
{
   if (vp_symbolic())
   {
      double *r = new double[m];
      a(x, r);
      for (int i = 0; i < m; ++i) { for (int j = 0; j < n; ++j) { J[i * n + j] = vp_diff(r[i], x[j]); } }
      delete[] r;
      return;
   }
   double *p = new double[m], *q = new double[m], *d = new double[3 * m];
   for (int j = 0; j < n; ++j)
   {
      double x0 = x[j], h = 2e-3;
      for (int k = 0; k < 3; ++k)
      {
         x[j] = x0 + h; a(x, p);
         x[j] = x0 - h; a(x, q);
         for (int i = 0; i < m; ++i) { d[k * m + i] = (p[i] - q[i]) / (2 * h); }
         h *= 0.5;
      }
      x[j] = x0;
      for (int i = 0; i < m; ++i)
      {
         double e0 = (4 * d[m + i] - d[i]) / 3, e1 = (4 * d[2 * m + i] - d[m + i]) / 3;
         J[i * n + j] = (16 * e1 - e0) / 15;
      }
   }
   delete[] p; delete[] q; delete[] d;
}
// arbitrary pointwise functions and their exact Jacobians
struct Arg
{
   double a[32]; int n = 0;
   Arg &operator<<(double v) { a[n++] = v; return *this; }
   Arg &operator<<(const Vector &v) { for (int i = 0; i < v.Size(); ++i) { a[n++] = v(i); } return *this; }
   Arg &operator<<(const DenseMatrix &m) { for (int i = 0; i < m.Height(); ++i) { for (int j = 0; j < m.Width(); ++j) { a[n++] = m(i, j); } } return *this; }
   double f(const char *name) const { return vp_fn(name, n, a); }
   double df(const char *name, int k) const { return vp_dfn(name, k, n, a); }
};
template <int D> static void states(const char *n, Vector &u, int nn) { u.SetSize(S * nn); for (int i = 0; i < S * nn; ++i) { u(i) = vp_real(n, i, -1, 1); } }
// grad is the exact derivative of vec
template <class A, class B>
static void exact(Vector &u, A vec, B grad, int c0 = 0, int c1 = 1 << 20)
{
   const int n = u.Size();
   double *J = new double[n * n], *x = u.GetData();
   jacobian([&](double *y, double *r) { Vector v(y, n), e; vec(v, e); for (int i = 0; i < n; ++i) { r[i] = e(i); } }, x, n, n, J);
   DenseMatrix m;
   vp_twice(m, [&](DenseMatrix &o) { grad(u, o); });
   vp_ieq("element Jacobian has the size of the residual", m.Height(), n);
   vp_ieq("element Jacobian is square", m.Width(), n);
   for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { if (j >= c0 && j < c1) vp_eq("element Jacobian is the exact derivative of the element residual", m(i, j), J[i * n + j]); } }
   delete[] J;
}
#endif
