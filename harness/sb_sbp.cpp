// VP-DEFS -Doverride=
// VP-OPT throw_ok = ^h_sbp_index
// VP-OPT unroll = ^h_sbp_index
// Generic part of the summation-by-parts elements: every access path gives the same operators.
#include "std_model.hpp"
#include "mfem_fe_model.hpp"
#include "sbp_fe.cpp"
#include "orthopoly.cpp"
#include "utils.cpp"
#include "fe_fixture.hpp"

template <int D>
static void ops()
{
   enum { N = D + 1 };
   TestSBP<D> el("H", "Q", "V", 2);
   vp_reach("operators");
   DenseMatrix u(S, N), ref(S, N), r(S, N), M(N);
   for (int n = 0; n < S; ++n) { for (int i = 0; i < N; ++i) { u(n, i) = vp_real("u", n * N + i, -2, 2); } }
   for (int i = 0; i < N; ++i) { vp_eq("norm entry", el.getDiagNormEntry(i), el.h(i)); vp_eq("norm vector", el.returnDiagNorm()(i), el.h(i)); }
   // norm
   r = 7.0; el.multNormMatrix(u, r);
   for (int n = 0; n < S; ++n) { for (int i = 0; i < N; ++i) { vp_eq("H u", r(n, i), el.h(i) * u(n, i)); } }
   el.multNormMatrixInv(r, r);
   for (int n = 0; n < S; ++n) { for (int i = 0; i < N; ++i) { vp_eq("H^-1 (in place) undoes H", r(n, i), u(n, i)); } }
   r = u; el.multNormMatrix(r, r);
   for (int n = 0; n < S; ++n) { for (int i = 0; i < N; ++i) { vp_eq("H u in place", r(n, i), el.h(i) * u(n, i)); } }
   for (int d = 0; d < D; ++d)
   {
      Vector row, q(S);
      for (int t = 0; t < 2; ++t)
      {
         DenseMatrix A, W;
         el.getStrongOperator(d, A, t == 1);
         el.getWeakOperator(d, W, t == 1);
         vp_ieq("operator size", A.Height() + A.Width() + W.Height() + W.Width(), 4 * N);
         for (int i = 0; i < N; ++i)
         {
            for (int j = 0; j < N; ++j)
            {
               vp_eq("difference operator is H^-1 Q", t ? A(j, i) : A(i, j), el.q(d, i, j) / el.h(i));
               vp_eq("weak operator is Q", t ? W(j, i) : W(i, j), el.q(d, i, j));
            }
         }
         for (int n = 0; n < S; ++n) { for (int i = 0; i < N; ++i) { r(n, i) = ref(n, i) = vp_real("r", n * N + i, -2, 2); } }
         el.multWeakOperator(d, u, r, t == 1);
         for (int n = 0; n < S; ++n)
         {
            for (int i = 0; i < N; ++i)
            {
               double s = ref(n, i);
               for (int j = 0; j < N; ++j) { if (t) { s -= el.q(d, j, i) * u(n, j); } else { s += el.q(d, i, j) * u(n, j); } }
               vp_eq("weak operator (or minus its transpose) applied and added", r(n, i), s);
            }
         }
      }
      for (int i = 0; i < N; ++i)
      {
         el.getStrongOperator(d, i, row);
         vp_ieq("row length", row.Size(), N);
         for (int j = 0; j < N; ++j) { vp_eq("row of the difference operator", row(j), el.q(d, i, j) / el.h(i)); vp_eq("entry of the weak operator", el.getQ(d, i, j), el.q(d, i, j)); }
         q = 3.0; el.multWeakOperator(d, i, u, q);
         for (int n = 0; n < S; ++n) { double s = 0.0; for (int j = 0; j < N; ++j) { s += el.q(d, i, j) * u(n, j); } vp_eq("weak operator at a node", q(n), s); ref(n, i) = s / el.h(i); }
         q = 3.0; el.multStrongOperator(d, i, u, q);
         for (int n = 0; n < S; ++n) { vp_eq("difference operator at a node", q(n), ref(n, i)); }
      }
   }
}
VP_HARNESS(h_sbp_ops_1) { ops<1>(); }
VP_HARNESS(h_sbp_ops_2) { ops<2>(); }
VP_HARNESS(h_sbp_ops_3) { ops<3>(); }

// the projection removes span V: P = I - V V^T H
template <int D, int K>
static void proj()
{
   enum { N = D + 1 };
   TestSBP<D> el("H", "Q", "V", K);
   vp_reach("projection");
   DenseMatrix P(N), u(S, N), r, G(K);
   el.getProjOperator(P);
   for (int a = 0; a < K; ++a) { for (int b = 0; b < K; ++b) { G(a, b) = 0.0; for (int i = 0; i < N; ++i) { G(a, b) += el.v(i, a) * el.h(i) * el.v(i, b); } } }
   for (int n = 0; n < S; ++n) { for (int i = 0; i < N; ++i) { u(n, i) = vp_real("u", n * N + i, -2, 2); } }
   for (int i = 0; i < N; ++i)
   {
      for (int j = 0; j < N; ++j)
      {
         vp_eq("projection entry", el.getProjOperatorEntry(i, j), el.p(i, j));
         vp_eq("projection matrix", P(i, j), el.p(i, j));
         vp_eq("projection is symmetric in the norm H", el.h(i) * P(i, j), el.h(j) * P(j, i));
         double pp = 0.0, c = P(i, j);
         for (int k = 0; k < N; ++k) { pp += P(i, k) * P(k, j); }
         // V (I - V^T H V) V^T H vanishes for an H-orthonormal basis
         for (int a = 0; a < K; ++a) { for (int b = 0; b < K; ++b) { c -= el.v(i, a) * ((a == b) - G(a, b)) * el.v(j, b) * el.h(j); } }
         vp_eq("projection is idempotent up to the non-orthonormality of the basis", pp, c);
      }
      for (int b = 0; b < K; ++b)
      {
         double pv = 0.0, c = 0.0;
         for (int j = 0; j < N; ++j) { pv += P(i, j) * el.v(j, b); }
         for (int a = 0; a < K; ++a) { c += el.v(i, a) * ((a == b) - G(a, b)); }
         vp_eq("projection annihilates the basis up to its non-orthonormality", pv, c);
      }
   }
   for (int t = 0; t < 2; ++t)
   {
      r.SetSize(S, N); r = 5.0;
      el.multProjOperator(u, r, t == 1);
      for (int n = 0; n < S; ++n) { for (int i = 0; i < N; ++i) { double s = 0.0; for (int j = 0; j < N; ++j) { s += (t ? P(j, i) : P(i, j)) * u(n, j); } vp_eq("projection (or its transpose) applied", r(n, i), s); } }
   }
}
VP_HARNESS(h_sbp_proj_1) { proj<1, 1>(); }
VP_HARNESS(h_sbp_proj_2) { proj<2, 2>(); }
VP_HARNESS(h_sbp_proj_3) { proj<3, 2>(); }

// entries of the physical-space operators and their reverse derivative
template <int D>
static void phys()
{
   enum { N = D + 1 };
   TestSBP<D> el("H", "Q", "V", 0);
   DenseMatrix A(D), B(D), Ab(D), Bb(D);
   for (int a = 0; a < D; ++a) { for (int b = 0; b < D; ++b) { A(a, b) = vp_real("A", a * D + b, -2, 2); B(a, b) = vp_real("B", a * D + b, -2, 2); } }
   double bar = vp_real("bar", -1, -2, 2);
   vp_reach("physical");
   for (int d = 0; d < D; ++d)
   {
      for (int i = 0; i < N; ++i)
      {
         double e = 0.0;
         for (int k = 0; k < D; ++k) { e += A(k, d) * el.q(k, i, i); }
         vp_eq("symmetric entry", el.getSymEntry(d, i, A), e);
         for (int j = 0; j < N; ++j)
         {
            double s = 0.0;
            for (int k = 0; k < D; ++k) { s += A(k, d) * el.q(k, i, j) - B(k, d) * el.q(k, j, i); }
            vp_eq("skew entry", el.getSkewEntry(d, i, j, A, B), s);
            vp_eq("skew entry changes sign when the nodes are exchanged", el.getSkewEntry(d, j, i, B, A), -s);
            if (i != j) { vp_eq("operator entry is half the skew entry", el.getQEntry(d, i, j, A, B), 0.5 * s); }
            else { vp_eq("diagonal operator entry", el.getQEntry(d, i, i, A, A), e); }
            for (int a = 0; a < D; ++a) { for (int b = 0; b < D; ++b) { Ab(a, b) = vp_real("Ab", a * D + b, -2, 2); Bb(a, b) = vp_real("Bb", a * D + b, -2, 2); } }
            el.getSkewEntryRevDiff(d, i, j, bar, Ab, Bb);
            for (int a = 0; a < D; ++a)
            {
               for (int b = 0; b < D; ++b)
               {
                  vp_eq("reverse derivative of the skew entry is added (first node)", Ab(a, b), vp_real("Ab", a * D + b, -2, 2) + (b == d ? bar * el.q(a, i, j) : 0.0));
                  vp_eq("reverse derivative of the skew entry is added (second node)", Bb(a, b), vp_real("Bb", a * D + b, -2, 2) - (b == d ? bar * el.q(a, j, i) : 0.0));
               }
            }
         }
      }
   }
}
VP_HARNESS(h_sbp_phys_1) { phys<1>(); }
VP_HARNESS(h_sbp_phys_2) { phys<2>(); }
VP_HARNESS(h_sbp_phys_3) { phys<3>(); }

// nodes are found by their position, anything else is rejected
template <int D, int k>
static void index1()
{
   enum { N = D + 1 };
   TestSBP<D> el("H", "Q", "V", 0);
   double c[3] = {0, 0, 0};
   for (int i = 0; i < N; ++i) { for (int d = 0; d < D; ++d) { el.mcoords()(i, d) = vp_real("x", i * D + d, -1, 1); } }
   IntegrationPoint ip;
   for (int d = 0; d < D; ++d) { if (k >= 0) { c[d] = el.coords()(k, d); } else { c[d] = vp_real("p", d, -1, 1); } }
   ip.Set(c[0], c[1], c[2], 0.0);
   double sep2 = 1e-12 * 1e-12;
   for (int i = 0; i < N; ++i) { double r = 0.0; for (int d = 0; d < D; ++d) { r += (c[d] - el.coords()(i, d)) * (c[d] - el.coords()(i, d)); } if (i != k) { vp_assume(r > 4 * sep2); } }
   vp_reach("index");
   int got = -2; bool thrown = false;
   try { got = el.getIntegrationPointIndex(ip); } catch (const miso::MISOException &) { thrown = true; }
   if (k >= 0) { vp_true("a node is never rejected", !thrown); vp_ieq("a node is found by its position", got, k); }
   else { vp_true("a point that is no node is rejected", thrown); }
}
template <int D>
static void index()
{
   int k = vp_choice("k", -1, D);
   if (k < 0) { index1<D, -1>(); }
   else if (k == 0) { index1<D, 0>(); }
   else if (k == 1) { index1<D, 1>(); }
   else if (k == 2) { index1<D, (D > 1 ? 2 : 1)>(); }
   else { index1<D, D>(); }
}
VP_HARNESS(h_sbp_index_1) { index<1>(); }
VP_HARNESS(h_sbp_index_2) { index<2>(); }
VP_HARNESS(h_sbp_index_3) { index<3>(); }
