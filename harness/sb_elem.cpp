// VP-DEFS -Doverride=
// VP-OPT unroll = .
// VP-OPT abort_ok = ^h_reject
// VP-USE ^h_(seg[0-9]_(shapes|interp)|reject_seg) : _ZN4miso20getLobattoQuadratureEiRN4mfem6VectorES2_ => contract_lobatto
// The elements as they are constructed: tables, nodes, weights and bases of every supported degree.
#include "std_model.hpp"
#include "mfem_fe_model.hpp"
#include "sbp_fe.cpp"
#include "orthopoly.cpp"
#include "utils.cpp"
#include "vp_harness.hpp"
#include "sbp_spec.hpp"
using namespace mfem;

#ifndef VP_NATIVE
// contract of the quadrature (its own obligations: h_lobatto in sb_poly): increasing nodes from
// -1 to 1, at least 1e-3 apart, positive weights, all symmetric; any such nodes
extern "C" void contract_lobatto(int n, Vector &x, Vector &w)
{
   static const char *nx[6] = {"x0", "x1", "x2", "x3", "x4", "x5"}, *nw[6] = {"w0", "w1", "w2", "w3", "w4", "w5"};
   for (int i = 0; i < n; ++i)
   {
      if (2 * i < n) { x(i) = i == 0 ? -1.0 : 2 * i + 1 == n ? 0.0 : vp_fresh(nx[i]); w(i) = vp_fresh(nw[i]); }
      else { x(i) = -x(n - 1 - i); w(i) = w(n - 1 - i); }
      vp_assume(w(i) > 0.0);
      if (i) { vp_assume(x(i) - x(i - 1) > 1e-3); }
   }
}
#endif
static double pw(double x, int n) { return s_pow(x, n); }
// a monomial of total degree <= p, by number; returns false past the last one
template <int D>
static bool mono(int m, int p, int *e)
{
   int k = 0;
   for (int t = 0; t <= p; ++t)
   {
      for (int b = 0; b <= (D > 1 ? t : 0); ++b)
      {
         for (int c = 0; c <= (D > 2 ? t - b : 0); ++c)
         {
            if (k++ == m) { e[0] = t - b - c; e[1] = b; e[2] = c; return true; }
         }
      }
   }
   return false;
}
static double value(const int *e, const double *c) { return pw(c[0], e[0]) * pw(c[1], e[1]) * pw(c[2], e[2]); }
static double slope(const int *e, const double *c, int d)
{
   if (e[d] == 0) { return 0.0; }
   int f[3] = {e[0], e[1], e[2]}; f[d] -= 1;
   return e[d] * value(f, c);
}
// integral over the reference simplex: a! b! c! / (a + b + c + D)!
static double integral(const int *e, int D) { return s_fact(e[0]) * s_fact(e[1]) * s_fact(e[2]) / s_fact(e[0] + e[1] + e[2] + D); }

template <class El, int D>
struct Elem : El
{
   using El::El;
   double c[30][3];
   int n;
   void coords()
   {
      n = this->GetDof();
      for (int i = 0; i < n; ++i) { for (int d = 0; d < 3; ++d) { c[i][d] = d < D ? this->x(i, d) : 0.0; } }
   }
   const DenseMatrix &basis() const { return this->V; }
};

// nodes, weights and the quadrature they form
template <class E, int D>
static void nodes(E &el, int p, int nn, int exact)
{
   el.coords(); int n = el.n;
   vp_ieq("number of nodes", n, nn); vp_ieq("dimension", el.GetDim(), D); vp_ieq("degree", el.GetOrder(), p);
   const IntegrationRule &ir = el.GetNodes();
   for (int i = 0; i < n; ++i)
   {
      const IntegrationPoint &ip = ir.IntPoint(i);
      double rest = 1.0;
      for (int d = 0; d < D; ++d) { vp_le("node inside the reference element", -1e-15, el.c[i][d]); rest -= el.c[i][d]; }
      vp_le("node inside the reference element", -1e-15, rest);
      vp_lt("positive norm", 0.0, el.getDiagNormEntry(i));
      vp_eq("norm is the weight of the node", el.getDiagNormEntry(i), ip.weight);
      vp_eq("coordinate of the node", el.c[i][0], ip.x);
      if (D > 1) { vp_eq("coordinate of the node", el.c[i][1], ip.y); }
      if (D > 2) { vp_eq("coordinate of the node", el.c[i][2], ip.z); }
   }
   int e[3];
   for (int m = 0; mono<D>(m, exact, e); ++m)
   {
      double s = 0.0;
      for (int i = 0; i < n; ++i) { s += el.getDiagNormEntry(i) * value(e, el.c[i]); }
      vp_eqtol("the norm integrates polynomials", s, integral(e, D), 1e-13);
   }
}
// the operators: exact on polynomials, and their symmetric part is the boundary quadrature
template <class E, int D>
static void operators(E &el, int p)
{
   el.coords(); int n = el.n, e[3];
   DenseMatrix M;
   for (int d = 0; d < D; ++d)
   {
      el.getStrongOperator(d, M);
      for (int m = 0; mono<D>(m, p, e); ++m)
      {
         for (int i = 0; i < n; ++i)
         {
            double s = 0.0;
            for (int j = 0; j < n; ++j) { s += M(i, j) * value(e, el.c[j]); }
            vp_eqtol("derivative of the polynomials of the design degree", s, slope(e, el.c[i], d), 1e-11);
         }
      }
      for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) { vp_eqtol("off-diagonal part is skew", el.getQ(d, i, j), -el.getQ(d, j, i), 1e-14); } }
   }
}
// the diagonal of Q + Q^T is the boundary quadrature of the face elements
template <class E, class F, int D>
static void boundary(E &el, F &fc)
{
   el.coords(); fc.coords();
   int n = el.n;
   double b[D][30], nrm[D + 1][3], org[D + 1][3], dir[D + 1][2][3];
   for (int f = 0; f <= D; ++f)
   {
      for (int d = 0; d < 3; ++d)
      {
         // faces x_f = 0, and the oblique one (f == D)
         nrm[f][d] = d < D ? (f == D ? 1.0 : (d == f ? -1.0 : 0.0)) : 0.0;
         org[f][d] = f == D && d == 0 ? 1.0 : 0.0;
         for (int k = 0; k < 2; ++k) { dir[f][k][d] = 0.0; }
      }
      for (int k = 0; k < D - 1; ++k)
      {
         if (f == D) { dir[f][k][0] = -1.0; dir[f][k][k + 1] = 1.0; }
         else { dir[f][k][k < f ? k : k + 1] = 1.0; }
      }
   }
   for (int d = 0; d < D; ++d) { for (int i = 0; i < n; ++i) { b[d][i] = 0.0; } }
   for (int f = 0; f <= D; ++f)
   {
      for (int q = 0; q < fc.n; ++q)
      {
         double y[3]; int found = 0;
         for (int d = 0; d < 3; ++d) { y[d] = org[f][d]; for (int k = 0; k < D - 1; ++k) { y[d] += dir[f][k][d] * fc.c[q][k]; } }
         for (int i = 0; i < n; ++i)
         {
            double r = 0.0;
            for (int d = 0; d < D; ++d) { r += std::fabs(el.c[i][d] - y[d]); }
            if (r < 1e-12) { ++found; for (int d = 0; d < D; ++d) { b[d][i] += nrm[f][d] * fc.getDiagNormEntry(q); } }
         }
         vp_ieq("every face node is exactly one element node", found, 1);
      }
   }
   for (int d = 0; d < D; ++d) { for (int i = 0; i < n; ++i) { vp_eqtol("Q + Q^T is the boundary quadrature", 2.0 * el.getQ(d, i, i), b[d][i], 1e-13); } }
}
// the basis of the projection is orthonormal and has the dimension of the polynomials; they are annihilated
template <class E, int D>
static void projection(E &el, int p, int dim)
{
   el.coords(); int n = el.n, e[3];
   const DenseMatrix &V = el.basis();
   vp_ieq("dimension of the polynomial space", V.Width(), dim);
   for (int a = 0; a < dim; ++a)
   {
      for (int b = 0; b <= a; ++b)
      {
         double s = 0.0;
         for (int i = 0; i < n; ++i) { s += V(i, a) * el.getDiagNormEntry(i) * V(i, b); }
         if (a == b || 1) { vp_eqtol("basis orthonormal in the norm", s, a == b ? 1.0 : 0.0, 1e-12); }
      }
   }
   DenseMatrix P(n);
   el.getProjOperator(P);
   for (int m = 0; mono<D>(m, p, e); ++m)
   {
      for (int i = 0; i < n; ++i)
      {
         double s = 0.0;
         for (int j = 0; j < n; ++j) { s += P(i, j) * value(e, el.c[j]); }
         vp_eqtol("projection annihilates the polynomials of the design degree", s, 0.0, 1e-12);
      }
   }
}
// shape functions and their derivatives
template <class E, int D>
static void shapes(E &el, int p)
{
   el.coords(); int n = el.n, e[3];
   const IntegrationRule &ir = el.GetNodes();
   Vector sh(n); DenseMatrix ds(n, D), M;
   for (int i = 0; i < n; ++i)
   {
      sh = 4.0; ds = 4.0;
      el.CalcShape(ir.IntPoint(i), sh);
      for (int j = 0; j < n; ++j) { vp_eq("shape functions at the nodes are nodal", sh(j), i == j ? 1.0 : 0.0); }
      for (int w = 0; w < 2; ++w)
      {
         IntegrationPoint cp = ir.IntPoint(i);
         el.CalcDShape(w ? cp : ir.IntPoint(i), ds);
         for (int d = 0; d < D; ++d) { for (int j = 0; j < n; ++j) { vp_eq("row of the derivative operator", ds(j, d), el.getQ(d, i, j) / el.getDiagNormEntry(i)); } }
      }
      vp_ieq("node found by its position", el.getIntegrationPointIndex(ir.IntPoint(i)), i);
   }
}
static double kernel(int D, int p, const double *a, const double *b)
{
   double k = 0.0, A[3], B[3];
   for (int d = 0; d < 3; ++d) { A[d] = 2 * a[d] - 1; B[d] = 2 * b[d] - 1; }
   if (D == 1) { for (int i = 0; i <= p; ++i) { k += 2.0 * jacobi_spec(i, 0, 0, A[0]) * jacobi_spec(i, 0, 0, B[0]); } }
   if (D == 2) { for (int i = 0; i <= p; ++i) { for (int j = 0; i + j <= p; ++j) { k += 4.0 * tri_spec(i, j, A[0], A[1]) * tri_spec(i, j, B[0], B[1]); } } }
   if (D == 3) { for (int i = 0; i <= p; ++i) { for (int j = 0; i + j <= p; ++j) { for (int l = 0; i + j + l <= p; ++l) { k += 8.0 * tet_spec(i, j, l, A[0], A[1], A[2]) * tet_spec(i, j, l, B[0], B[1], B[2]); } } } }
   return k;
}
// away from the nodes: the projection onto the polynomials, evaluated at any point
template <class E, int D>
static void interpolate(E &el, int p)
{
   el.coords(); int n = el.n;
   double y[3] = {0, 0, 0};
   for (int d = 0; d < D; ++d) { y[d] = vp_real("y", d, 0, 1); }
   if (D > 1) { vp_assume(y[1] != 1.0); }
   if (D > 2) { vp_assume(y[2] != 1.0 && y[1] + y[2] != 1.0); }
   IntegrationPoint ip; ip.Set(y[0], y[1], y[2], 0.0);
   Vector sh(n); sh = 4.0;
   el.CalcShape(ip, sh);
   for (int j = 0; j < n; ++j) { vp_eq("shape functions anywhere are the projection onto the polynomials", sh(j), el.getDiagNormEntry(j) * kernel(D, p, y, el.c[j])); }
}
typedef Elem<SBPSegmentElement, 1> Seg;
typedef Elem<SBPTriangleElement, 2> Tri;
typedef Elem<SBPTetrahedronElement, 3> Tet;
static const int trinodes[5] = {3, 7, 12, 18, 27}, tetnodes[2] = {4, 14};

#define ONE(name, T, D, P, NN, EX, DIM) \
VP_HARNESS(h_##name##_nodes) { T el NN; vp_reach("element"); nodes<T, D>(el, P, el.GetDof(), EX); } \
VP_HARNESS(h_##name##_ops) { T el NN; vp_reach("element"); operators<T, D>(el, P); } \
VP_HARNESS(h_##name##_proj) { T el NN; vp_reach("element"); projection<T, D>(el, P, DIM); } \
VP_HARNESS(h_##name##_shapes) { T el NN; vp_reach("element"); shapes<T, D>(el, P); } \
VP_HARNESS(h_##name##_interp) { T el NN; vp_reach("element"); interpolate<T, D>(el, P); }
ONE(seg0, Seg, 1, 0, (0), 1, 1)
ONE(seg1, Seg, 1, 1, (1), 3, 2)
ONE(seg2, Seg, 1, 2, (2), 5, 3)
ONE(seg3, Seg, 1, 3, (3), 7, 4)
ONE(seg4, Seg, 1, 4, (4), 9, 5)
ONE(tri0, Tri, 2, 0, (0, 3), 1, 1)
ONE(tri1, Tri, 2, 1, (1, 7), 2, 3)
ONE(tri2, Tri, 2, 2, (2, 12), 4, 6)
ONE(tri3, Tri, 2, 3, (3, 18), 6, 10)
ONE(tri4, Tri, 2, 4, (4, 27), 8, 15)
ONE(tet0, Tet, 3, 0, (0, 4), 1, 1)
ONE(tet1, Tet, 3, 1, (1, 14), 2, 4)
#define BND(name, T, NN, F, FN, D) VP_HARNESS(h_##name##_bnd) { T el NN; F fc FN; vp_reach("element"); boundary<T, F, D>(el, fc); }
BND(tri0, Tri, (0, 3), Seg, (0), 2)
BND(tri1, Tri, (1, 7), Seg, (1), 2)
BND(tri2, Tri, (2, 12), Seg, (2), 2)
BND(tri3, Tri, (3, 18), Seg, (3), 2)
BND(tri4, Tri, (4, 27), Seg, (4), 2)
BND(tet0, Tet, (0, 4), Tri, (0, 3), 3)
BND(tet1, Tet, (1, 14), Tri, (1, 7), 3)

// the collections: how many unknowns sit on vertices, edges, faces and inside,
// and that every sub-entity of an element carries the nodes of its own element
template <class C, int CONT>
static void collection()
{
   int p = vp_choice("degree", 0, 4);
   vp_reach("collection");
   C fec(p, 2);
   int nv = fec.DofForGeometry(Geometry::POINT), ne = fec.DofForGeometry(Geometry::SEGMENT), nf = fec.DofForGeometry(Geometry::TRIANGLE);
   const SBPFiniteElement &tri = static_cast<const SBPFiniteElement &>(*fec.FiniteElementForGeometry(Geometry::TRIANGLE));
   const SBPFiniteElement &seg = static_cast<const SBPFiniteElement &>(*fec.FiniteElementForGeometry(Geometry::SEGMENT));
   vp_ieq("unknowns on vertices, edges and inside add up to the element", 3 * nv + 3 * ne + nf, tri.GetDof());
   vp_ieq("number of nodes of the triangle", tri.GetDof(), trinodes[p]);
   vp_ieq("number of nodes of the segment", seg.GetDof(), p + 2);
   vp_ieq("degree", tri.GetOrder() + seg.GetOrder(), 2 * p);
   vp_ieq("continuity", fec.GetContType(), CONT ? (int)FiniteElementCollection::CONTINUOUS : (int)FiniteElementCollection::DISCONTINUOUS);
   vp_ieq("one unknown per vertex of the continuous space", nv, CONT ? 1 : 0);
   vp_ieq("interior edge nodes of the continuous space", ne, CONT ? p : 0);
   const int *fwd = fec.DofOrderForOrientation(Geometry::SEGMENT, 1), *rev = fec.DofOrderForOrientation(Geometry::SEGMENT, -1);
   static const double vx[4][2] = {{0, 0}, {1, 0}, {0, 1}, {0, 0}};
   const IntegrationRule &tn = tri.GetNodes();
   for (int v = 0; v < 3; ++v) { vp_true("vertices first", std::fabs(tn.IntPoint(v).x - vx[v][0]) + std::fabs(tn.IntPoint(v).y - vx[v][1]) < 1e-14); }
   for (int e = 0; e < 3; ++e)
   {
      for (int k = 0; k < p; ++k)
      {
         const IntegrationPoint &a = tn.IntPoint(3 + e * p + k), &b = tn.IntPoint(3 + k);
         double s = b.x; // position along the first edge
         double X = vx[e][0] + s * (vx[e + 1][0] - vx[e][0]), Y = vx[e][1] + s * (vx[e + 1][1] - vx[e][1]);
         vp_true("every edge lists its nodes at the same positions", std::fabs(a.x - X) + std::fabs(a.y - Y) < 1e-14);
         vp_ieq("order along the edge", fwd[k], k);
         vp_true("order against the edge is the mirror image", rev[k] >= 0 && rev[k] < p && std::fabs(tn.IntPoint(3 + rev[k]).x - (1.0 - s)) < 1e-14);
      }
   }
}
VP_HARNESS(h_collection) { collection<SBPCollection, 1>(); }
VP_HARNESS(h_dg_collection) { collection<DSBPCollection, 0>(); }
VP_HARNESS(h_collection_segment)
{
   int p = vp_choice("degree", 0, 4);
   vp_reach("collection");
   SBPCollection fec(p, 2);
   const IntegrationRule &tn = fec.FiniteElementForGeometry(Geometry::TRIANGLE)->GetNodes(), &sn = fec.FiniteElementForGeometry(Geometry::SEGMENT)->GetNodes();
   vp_eqtol("first end", sn.IntPoint(0).x, 0.0, 1e-14); vp_eqtol("second end", sn.IntPoint(1).x, 1.0, 1e-14);
   for (int k = 0; k < p; ++k) { vp_eqtol("the segment lists its nodes like the edge of a triangle", sn.IntPoint(2 + k).x, tn.IntPoint(3 + k).x, 1e-14); }
}
VP_HARNESS(h_tet_collection)
{
   int p = vp_choice("degree", 0, 1);
   vp_reach("collection");
   SBPCollection fec(p, 3);
   int nv = fec.DofForGeometry(Geometry::POINT), ne = fec.DofForGeometry(Geometry::SEGMENT), nf = fec.DofForGeometry(Geometry::TRIANGLE), nt = fec.DofForGeometry(Geometry::TETRAHEDRON);
   const FiniteElement &tet = *fec.FiniteElementForGeometry(Geometry::TETRAHEDRON);
   vp_ieq("unknowns on vertices, edges, faces and inside add up to the element", 4 * nv + 6 * ne + 4 * nf + nt, tet.GetDof());
   vp_ieq("number of nodes of the tetrahedron", tet.GetDof(), tetnodes[p]);
   static const int ev[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}};
   static const int fv[4][3] = {{1, 2, 3}, {0, 3, 2}, {0, 1, 3}, {0, 2, 1}};
   const IntegrationRule &tn = tet.GetNodes();
   if (p == 1)
   {
      for (int v = 0; v < 4; ++v) { const IntegrationPoint &q = tn.IntPoint(v); vp_true("vertices first", q.x == (v == 1) && q.y == (v == 2) && q.z == (v == 3)); }
      for (int e = 0; e < 6; ++e) { const IntegrationPoint &q = tn.IntPoint(4 + e); double w[4] = {0, 0, 0, 0}; w[ev[e][0]] = w[ev[e][1]] = 0.5; vp_true("edge nodes in mfem's order of edges", q.x == w[1] && q.y == w[2] && q.z == w[3]); }
      for (int f = 0; f < 4; ++f) { const IntegrationPoint &q = tn.IntPoint(10 + f); double w[4] = {0, 0, 0, 0}; for (int k = 0; k < 3; ++k) { w[fv[f][k]] = 1.0 / 3.0; } vp_true("face nodes in mfem's order of faces", std::fabs(q.x - w[1]) + std::fabs(q.y - w[2]) + std::fabs(q.z - w[3]) < 1e-14); }
      for (int o = 0; o < 6; ++o) { vp_ieq("the face node has no orientation", fec.DofOrderForOrientation(Geometry::TRIANGLE, o)[0], 0); }
   }
}

// the derivative of the shape functions is defined at the nodes only: no out-of-bounds column for any other point
template <class E, int D>
static void reject(E &el)
{
   el.coords();
   DenseMatrix ds(el.n, D);
   if (vp_bool("last node"))
   {
      IntegrationPoint ip = el.GetNodes().IntPoint(el.n - 1);
      ds = 3.0; el.CalcDShape(ip, ds);
      for (int d = 0; d < D; ++d) { for (int j = 0; j < el.n; ++j) { vp_eq("a copy of a node is a node", ds(j, d), el.getQ(d, el.n - 1, j) / el.getDiagNormEntry(el.n - 1)); } }
      return;
   }
   double y[3] = {0, 0, 0};
   for (int d = 0; d < D; ++d) { y[d] = vp_real("y", d, -0.2, 1.2); }
   for (int i = 0; i < el.n; ++i) { double r = 0.0; for (int d = 0; d < D; ++d) { r += (y[d] - el.c[i][d]) * (y[d] - el.c[i][d]); } vp_assume(r > 4e-12); }
   IntegrationPoint ip; ip.Set(y[0], y[1], y[2], 0.0);
   vp_reach("other point");
   el.CalcDShape(ip, ds);
   vp_true("a point that is no node is rejected", false);
}
VP_HARNESS(h_reject_seg1) { Seg el(1); reject<Seg, 1>(el); }
VP_HARNESS(h_reject_seg4) { Seg el(4); reject<Seg, 1>(el); }
VP_HARNESS(h_reject_tri1) { Tri el(1, 7); reject<Tri, 2>(el); }
VP_HARNESS(h_reject_tri4) { Tri el(4, 27); reject<Tri, 2>(el); }
VP_HARNESS(h_reject_tet1) { Tet el(1, 14); reject<Tet, 3>(el); }
