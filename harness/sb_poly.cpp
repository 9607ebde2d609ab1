// VP-DEFS -Doverride=
// VP-OPT unroll = ^h_lobatto
// Orthogonal polynomials: the recurrences equal the closed formulas (no recurrence, no division).
#include "std_model.hpp"
#include "mfem_fe_model.hpp"
#include "orthopoly.cpp"
#include "utils.cpp"
#include "vp_harness.hpp"
#include "sbp_spec.hpp"
using namespace miso;

template <int A0, int A1, int B0, int B1, int N0, int N1>
static void jac()
{
   int a = vp_choice("alpha", A0, A1), b = vp_choice("beta", B0, B1), n = vp_choice("degree", N0, N1);
   vp_reach("jacobi");
   Vector x(2), p(2);
   x(0) = vp_real("x", 0, -1, 1); x(1) = vp_real("x", 1, -1, 1); p = 9.0;
   double x0 = x(0), x1 = x(1);
   jacobiPoly(x, a, b, n, p);
   vp_eq("normalised Jacobi polynomial", p(0), jacobi_spec(n, a, b, x0));
   vp_eq("every point separately", p(1), jacobi_spec(n, a, b, x1));
   vp_true("points unchanged", x(0) == x0 && x(1) == x1);
}
VP_HARNESS(h_jacobi_legendre) { jac<0, 0, 0, 0, 0, 5>(); }
VP_HARNESS(h_jacobi_alpha) { jac<1, 10, 0, 0, 0, 4>(); }
VP_HARNESS(h_jacobi_beta) { jac<0, 2, 1, 2, 0, 3>(); }

// the bases on the triangle and on the tetrahedron, singular points included
VP_HARNESS(h_prorio_tri)
{
   int i = vp_choice("i", 0, 4), j = vp_choice("j", 0, 4);
   if (i + j > 4) { return; }
   Vector x(1), y(1), p(1);
   x(0) = vp_real("x", -1, -1, 1); y(0) = vp_real("y", -1, -1, 1);
   if (vp_bool("apex")) { y(0) = 1.0; x(0) = -1.0; vp_reach("apex"); }
   else { vp_assume(y(0) != 1.0); }
   vp_reach("triangle");
   prorioPoly(x, y, i, j, p);
   vp_eq("basis function on the triangle", p(0), tri_spec(i, j, x(0), y(0)));
}
template <int I0, int I1, int S>
static void tet()
{
   int i = vp_choice("i", I0, I1), j = vp_choice("j", 0, 3), k = vp_choice("k", 0, 3);
   if (i + j + k > 3) { return; }
   Vector x(1), y(1), z(1), p(1);
   x(0) = vp_real("x", -1, -1, 1); y(0) = vp_real("y", -1, -1, 1); z(0) = vp_real("z", -1, -1, 1);
   // the singular lines of the tetrahedron: y + z == 0 with x == -1, and the apex z == 1 with x == y == -1
   if (S == 1) { z(0) = -y(0); x(0) = -1.0; }
   if (S == 2) { z(0) = 1.0; y(0) = x(0) = -1.0; }
   if (S == 0) { vp_assume(y(0) + z(0) != 0.0 && z(0) != 1.0); }
   vp_reach("tetrahedron");
   prorioPoly(x, y, z, i, j, k, p);
   vp_eq("basis function on the tetrahedron", p(0), tet_spec(i, j, k, x(0), y(0), z(0)));
}
VP_HARNESS(h_prorio_tet_lo) { tet<0, 1, 0>(); }
VP_HARNESS(h_prorio_tet_hi) { tet<2, 3, 0>(); }
VP_HARNESS(h_prorio_tet_edge) { tet<0, 3, 1>(); }
VP_HARNESS(h_prorio_tet_apex) { tet<0, 3, 2>(); }

// the Vandermonde matrices: the right number of columns, spanning the right
// space with the right inner products (the order of the columns is free)
VP_HARNESS(h_vandermonde_seg)
{
   int p = vp_choice("degree", 0, 4);
   Vector x(2); x(0) = vp_real("x", 0, -1, 1); x(1) = vp_real("x", 1, -1, 1);
   vp_reach("segment");
   DenseMatrix V; getVandermondeForSeg(x, p, V);
   vp_ieq("rows", V.Height(), 2); vp_ieq("columns", V.Width(), p + 1);
   for (int a = 0; a < 2; ++a) { for (int b = 0; b < 2; ++b) {
      double s = 0.0, k = 0.0;
      for (int m = 0; m <= p; ++m) { s += V(a, m) * V(b, m); k += jacobi_spec(m, 0, 0, x(a)) * jacobi_spec(m, 0, 0, x(b)); }
      vp_eq("reproducing kernel of the polynomials on the segment", s, k); } }
}
VP_HARNESS(h_vandermonde_tri)
{
   int p = vp_choice("degree", 0, 3);
   Vector x(2), y(2);
   for (int a = 0; a < 2; ++a) { x(a) = vp_real("x", a, -1, 1); y(a) = vp_real("y", a, -1, 1); }
   vp_assume(y(0) != 1.0);
   if (vp_bool("apex")) { y(1) = 1.0; x(1) = -1.0; }
   else { vp_assume(y(1) != 1.0); }
   vp_reach("triangle");
   DenseMatrix V; getVandermondeForTri(x, y, p, V);
   vp_ieq("rows", V.Height(), 2); vp_ieq("columns", V.Width(), (p + 1) * (p + 2) / 2);
   for (int a = 0; a < 2; ++a) {
      double s = 0.0, k = 0.0;
      for (int m = 0; m < (p + 1) * (p + 2) / 2; ++m) { s += V(0, m) * V(a, m); }
      for (int i = 0; i <= p; ++i) { for (int j = 0; i + j <= p; ++j) { k += tri_spec(i, j, x(0), y(0)) * tri_spec(i, j, x(a), y(a)); } }
      vp_eq("reproducing kernel of the polynomials on the triangle", s, k); }
}
VP_HARNESS(h_vandermonde_tet)
{
   int p = vp_choice("degree", 0, 2);
   Vector x(2), y(2), z(2);
   for (int a = 0; a < 2; ++a) { x(a) = vp_real("x", a, -1, 1); y(a) = vp_real("y", a, -1, 1); z(a) = vp_real("z", a, -1, 1); vp_assume(y(a) + z(a) != 0.0 && z(a) != 1.0); }
   vp_reach("tetrahedron");
   DenseMatrix V; getVandermondeForTet(x, y, z, p, V);
   vp_ieq("rows", V.Height(), 2); vp_ieq("columns", V.Width(), (p + 1) * (p + 2) * (p + 3) / 6);
   double s = 0.0, k = 0.0;
   for (int m = 0; m < (p + 1) * (p + 2) * (p + 3) / 6; ++m) { s += V(0, m) * V(1, m); }
   for (int i = 0; i <= p; ++i) { for (int j = 0; i + j <= p; ++j) { for (int l = 0; i + j + l <= p; ++l) {
      k += tet_spec(i, j, l, x(0), y(0), z(0)) * tet_spec(i, j, l, x(1), y(1), z(1)); } } }
   vp_eq("reproducing kernel of the polynomials on the tetrahedron", s, k);
}

// Gauss-Lobatto quadrature: nodes in increasing order, end points included, exact to degree 2n-3
VP_HARNESS(h_lobatto)
{
   int n = vp_choice("nodes", 2, 6);
   Vector x(n), w(n);
   vp_reach("lobatto");
   getLobattoQuadrature(n, x, w);
   vp_eqtol("left end", x(0), -1.0, 1e-14); vp_eqtol("right end", x(n - 1), 1.0, 1e-14);
   for (int i = 0; i < n; ++i) { vp_lt("positive weight", 0.0, w(i)); if (i) { vp_lt("increasing nodes", x(i - 1), x(i)); } vp_eqtol("symmetric nodes", x(i), -x(n - 1 - i), 1e-14); vp_eqtol("symmetric weights", w(i), w(n - 1 - i), 1e-14); }
   for (int m = 0; m <= 2 * n - 3; ++m)
   {
      double s = 0.0;
      for (int i = 0; i < n; ++i) { double t = w(i); for (int k = 0; k < m; ++k) { t *= x(i); } s += t; }
      vp_eqtol("exact integral of the monomials", s, m % 2 ? 0.0 : 2.0 / (m + 1), 1e-13);
   }
}
