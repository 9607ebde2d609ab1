// VP-DEFS -Doverride= -DVP_ORTHO_ASSIGN
// VP-ODL
// Mesh sensitivities of the flow residual (mesh_sens_integ_def.hpp, euler_sens_integ_def.hpp):
// the derivative of adjoint^T residual, assembled by the real residual integrators, in the
// mesh nodes of an isoparametric element; and the source terms of the manufactured solutions.
#include "std_model.hpp"
#include "mfem_iso_model.hpp"
#include "mfem_iso_priv.hpp"
#include "sbp_fe.cpp"
#include "orthopoly.cpp"
#include "utils.cpp"
#include "miso_input.cpp"
#include "euler_integ.hpp"
#include "euler_integ_mms.hpp"
#include "navier_stokes_integ.hpp"
#include "euler_sens_integ.hpp"
#include "fe_fixture.hpp"
#include "fi_fixture.hpp"
#ifdef VP_NATIVE
namespace mfem
{
void FiniteElement::CalcPhysShapeRevDiff(ElementTransformation &, const Vector &, DenseMatrix &) const { abort(); }
void FiniteElement::CalcVShapeRevDiff(ElementTransformation &, const DenseMatrix &, DenseMatrix &) const { abort(); }
void FiniteElement::CalcPhysCurlShapeRevDiff(ElementTransformation &, const DenseMatrix &, DenseMatrix &) const { abort(); }
}
#endif
static const char *FN[2] = {"F0", "F1"};
// mesh element: arbitrary basis functions and gradients at the nodes of the SBP element
template <int D>
struct MeshNodes : mfem::FiniteElement
{
   enum { N = D + 1 };
   const mfem::FiniteElement *sbp; double s[N][N], ds[N][N][D];
   MeshNodes(const mfem::FiniteElement *f) : mfem::FiniteElement(D, f->GetGeomType(), N, 2), sbp(f)
   {
      for (int i = 0; i < N; ++i) { for (int k = 0; k < N; ++k) { s[i][k] = vp_real("mN", i * N + k, -1, 1); for (int d = 0; d < D; ++d) { ds[i][k][d] = k == d ? vp_real("mD", (i * N + k) * D + d, 0.7, 1.3) : vp_real("mD", (i * N + k) * D + d, -0.2, 0.2); } } }
   }
   int node(const IntegrationPoint &ip) const
   {
      for (int i = 0; i < N; ++i) { const IntegrationPoint &p = sbp->GetNodes().IntPoint(i); if (p.x == ip.x && (D < 2 || p.y == ip.y) && (D < 3 || p.z == ip.z)) { return i; } }
      abort();
   }
   void CalcShape(const IntegrationPoint &ip, Vector &o) const override { int i = node(ip); for (int k = 0; k < N; ++k) { o(k) = s[i][k]; } }
   void CalcDShape(const IntegrationPoint &ip, DenseMatrix &o) const override { int i = node(ip); for (int k = 0; k < N; ++k) { for (int d = 0; d < D; ++d) { o(k, d) = ds[i][k][d]; } } }
};
template <int D>
struct Mapping : mfem::IsoparametricTransformation
{
   enum { N = D + 1 };
   MeshNodes<D> me; double X[D * N];
   Mapping(const mfem::FiniteElement *f) : me(f)
   {
      SetFE(&me);
      for (int d = 0; d < D; ++d) { for (int k = 0; k < N; ++k) { X[d * N + k] = d == k ? vp_real("X", d * N + k, 0.8, 1.4) : vp_real("X", d * N + k, -0.2, 0.2); } }
      Attribute = 1; ElementNo = 3; ElementType = ELEMENT;
      put(X); vp_world.trans = this;
   }
   void put(const double *x) { DenseMatrix P(D, N); for (int d = 0; d < D; ++d) { for (int k = 0; k < N; ++k) { P(d, k) = x[d * N + k]; } } SetPointMat(P); }
};
// a face of the element: its Jacobian is the element's times a fixed matrix
template <int D>
struct FaceGeo : mfem::ElementTransformation
{
   Mapping<D> &el; TestFace<D - 1> *f; const int *nl; double E[D][D - 1];
   FaceGeo(Mapping<D> &t, TestFace<D - 1> *fe, const int *nodes) : el(t), f(fe), nl(nodes) { geom = fe->GetGeomType(); for (int a = 0; a < D; ++a) { for (int b = 0; b < D - 1; ++b) { E[a][b] = vp_real("E", a * (D - 1) + b, -1, 1); } } }
   const DenseMatrix &EvalJacobian() override
   {
      int i = -1; for (int k = 0; k < D; ++k) { const IntegrationPoint &p = f->GetNodes().IntPoint(k); if (p.x == IntPoint->x && (D < 3 || p.y == IntPoint->y)) { i = nl[k]; } }
      if (i < 0) { abort(); }
      dFdx.SetSize(D, D - 1);
      for (int a = 0; a < D; ++a) { for (int b = 0; b < D - 1; ++b) { double r = 0.0; for (int c = 0; c < D; ++c) { double j = 0.0; for (int k = 0; k < D + 1; ++k) { j += el.GetPointMat()(a, k) * el.me.ds[i][k][c]; } r += j * E[c][b]; } dFdx(a, b) = r; } }
      EvalState |= JACOBIAN_MASK;
      return dFdx;
   }
   const DenseMatrix &EvalHessian() override { abort(); }
   void Transform(const IntegrationPoint &, Vector &) override { abort(); }
   void Transform(const mfem::IntegrationRule &, DenseMatrix &) override { abort(); }
   void Transform(const DenseMatrix &, DenseMatrix &) override { abort(); }
   int Order() const override { return 1; }
   int OrderJ() const override { return 1; }
   int OrderW() const override { return 1; }
   int OrderGrad(const mfem::FiniteElement *) const override { return 1; }
   int GetSpaceDim() const override { return D; }
   int TransformBack(const Vector &, IntegrationPoint &) override { abort(); }
};
template <int D>
struct BdrMap : mfem::FaceElementTransformations
{
   int nl[D]; TestFace<D - 1> *f; FaceGeo<D> geo;
   BdrMap(Mapping<D> &t, TestFace<D - 1> *fe) : f(fe), geo(t, fe, nl)
   {
      Elem1 = &t; Elem2 = nullptr; Face = &geo; Elem1No = t.ElementNo; Elem2No = -1; ElementNo = 7;
      DenseMatrix pm(D, D); pm = 0.0;
      for (int i = 0; i < D; ++i) { nl[i] = i + 1; pm(i, i) = 1.0; }
      Loc1.Transf.SetFE(f); Loc1.Transf.SetPointMat(pm);
   }
};
// field of S states per node: nodal values of the SBP element
struct Nodal : mfem::GridFunction
{
   struct Space : VpSpace { Space(const mfem::FiniteElement *f, mfem::FiniteElementCollection *c) : VpSpace(f, nullptr) { fec = c; } };
   Space sp; int n;
   Nodal(const mfem::FiniteElement *f, mfem::FiniteElementCollection *c, const char *name) : sp(f, c), n(f->GetDof())
   {
      fes = &sp; SetSize(S * n);
      for (int i = 0; i < S * n; ++i) { (*this)(i) = vp_real(name, i, -1, 1); }
   }
};
namespace mfem
{
// contract: the values of the field at the points of the rule (here: the nodes of its element)
void GridFunction::GetVectorValues(ElementTransformation &T, const IntegrationRule &ir, DenseMatrix &v, DenseMatrix *) const
{
   const Nodal *g = static_cast<const Nodal *>(this);
   if (&ir != &g->sp.fe->GetNodes() || T.ElementNo != vp_world.elem) { abort(); }
   v.SetSize(S, g->n);
   for (int i = 0; i < g->n; ++i) { for (int m = 0; m < S; ++m) { v(m, i) = (*g)(m * g->n + i); } }
}
}
template <int D> struct Res : miso::DyadicFluxIntegrator<Res<D>>
{
   Res(adept::Stack &s, double a) : miso::DyadicFluxIntegrator<Res<D>>(s, S, a) { }
   void calcFlux(int di, const Vector &l, const Vector &r, Vector &f) { Arg a; a << di << l << r; for (int m = 0; m < S; ++m) { f(m) = a.f(FN[m]); } }
   void calcFluxJacStates(int, const Vector &, const Vector &, DenseMatrix &, DenseMatrix &) { abort(); }
};
template <int D> struct Sens : miso::DyadicMeshSensIntegrator<Sens<D>>
{
   Sens(const mfem::GridFunction &u, const mfem::GridFunction &p, double a) : miso::DyadicMeshSensIntegrator<Sens<D>>(u, p, S, a) { }
   void calcFlux(int di, const Vector &l, const Vector &r, Vector &f) { Arg a; a << di << l << r; for (int m = 0; m < S; ++m) { f(m) = a.f(FN[m]); } }
};
template <int D> struct Bnd : miso::InviscidBoundaryIntegrator<Bnd<D>>
{
   Bnd(adept::Stack &s, const mfem::FiniteElementCollection *c, double a) : miso::InviscidBoundaryIntegrator<Bnd<D>>(s, c, S, a) { }
   void calcFlux(const Vector &, const Vector &dir, const Vector &u, Vector &f) { Arg a; a << dir << u; for (int m = 0; m < S; ++m) { f(m) = a.f(FN[m]); } }
   double calcBndryFun(const Vector &, const Vector &, const Vector &) { abort(); }
   void calcFluxJacState(const Vector &, const Vector &, const Vector &, DenseMatrix &) { abort(); }
   void calcFluxJacDir(const Vector &, const Vector &, const Vector &, DenseMatrix &) { abort(); }
};
template <int D> struct BndSens : miso::BoundaryMeshSensIntegrator<BndSens<D>>
{
   BndSens(const mfem::GridFunction &u, const mfem::GridFunction &p, double a) : miso::BoundaryMeshSensIntegrator<BndSens<D>>(u, p, S, a) { }
   void calcFluxBar(const Vector &, const Vector &dir, const Vector &u, const Vector &w, Vector &bar)
   {
      Arg a; a << dir << u;
      for (int d = 0; d < D; ++d) { bar(d) = 0.0; for (int m = 0; m < S; ++m) { bar(d) += w(m) * a.df(FN[m], d); } }
   }
};
template <int D, class R, class T> static void sens(Mapping<D> &tr, R residual, T assemble, const Vector &psi)
{
   const int n = D * (D + 1); double g[12], h = 0;
   auto f = [&](double *x) { tr.put(x); Vector r; residual(r); return psi * r; };
   vp_tol(1e-5);
   if (vp_symbolic()) { double r = f(tr.X); for (int i = 0; i < n; ++i) { g[i] = vp_diff(r, tr.X[i]); } }
   else { for (int i = 0; i < n; ++i) { g[i] = vp_d(f, tr.X, i); } }
   tr.put(tr.X);
   Vector e; vp_twice(e, assemble);
   vp_ieq("one sensitivity per node coordinate", e.Size(), n);
   for (int i = 0; i < n; ++i) { vp_eq("the mesh sensitivity is the derivative of adjoint^T residual in the node", e(i), g[i]); }
   vp_reach("sens");
}
template <int D> static void volume()
{
   TestSBP<D> el("H", "Q", "V", 0); Mapping<D> tr(&el); Nodal u(&el, nullptr, "u"), psi(&el, nullptr, "psi");
   adept::Stack st; double alpha = vp_real("alpha", -1, -2, 2);
   Res<D> res(st, alpha); Sens<D> sen(u, psi, alpha);
   sens<D>(tr, [&](Vector &r) { res.AssembleElementVector(el, tr, u, r); }, [&](Vector &e) { sen.AssembleRHSElementVect(tr.me, tr, e); }, psi);
}
template <int D> static void boundary()
{
   TestSBP<D> el("H", "Q", "V", 0); Mapping<D> tr(&el); TestFace<D - 1> face("w"); TestColl<D - 1> coll(&face); BdrMap<D> ft(tr, &face);
   Nodal u(&el, &coll, "u"), psi(&el, &coll, "psi");
   adept::Stack st; double alpha = vp_real("alpha", -1, -2, 2);
   Bnd<D> res(st, &coll, alpha); BndSens<D> sen(u, psi, alpha);
   sens<D>(tr, [&](Vector &r) { res.AssembleFaceVector(el, el, ft, u, r); }, [&](Vector &e) { sen.AssembleRHSElementVect(tr.me, ft, e); }, psi);
}
VP_HARNESS(h_volume_1) { volume<1>(); }
VP_HARNESS(h_volume_2) { volume<2>(); }
VP_HARNESS(h_volume_3) { volume<3>(); }
VP_HARNESS(h_boundary_2) { boundary<2>(); }
VP_HARNESS(h_boundary_3) { boundary<3>(); }
// pointwise functions of the sensitivity integrators
template <int dim, bool ev> static void pointwise()
{
   TestSBP<dim> el("H", "Q", "V", 0); Nodal u(&el, nullptr, "u"), psi(&el, nullptr, "psi");
   adept::Stack st; miso::IsmailRoeIntegrator<dim, ev> in(st); miso::IsmailRoeMeshSensIntegrator<dim, ev> sn(u, psi, dim + 2, 1.0);
   State<dim, ev> a("qL"), b("qR"); int di = vp_choice("di", 0, dim - 1); Vector f(dim + 2), g(dim + 2);
   in.calcFlux(di, a, b, f); sn.calcFlux(di, a, b, g); same("the sensitivity is that of the residual's flux", g, f);
   miso::SlipWallBC<dim, ev> wall(st, nullptr); miso::SlipWallBCMeshSens<dim, ev> ws(st, u, psi, dim + 2, 1.0);
   Dir<dim> x("x"), dir("dir"), bar("bar"); Dir<dim + 2> w("w");
   ws.calcFluxBar(x, dir, a, w, bar);
   grad("the adjoint of the wall flux is the derivative of the weighted flux in the normal", dir, [&]() { Vector o(dim + 2); wall.calcFlux(x, dir, a, o); return w * o; }, bar);
}
VARS(pointwise, h_pointwise)
// sources of the manufactured solutions
template <int D> struct Mms : miso::MMSIntegrator<Mms<D>>
{
   Mms(double a) : miso::MMSIntegrator<Mms<D>>(S, a) { }
   void calcSource(const Vector &x, Vector &f) const { Arg a; a << x; for (int m = 0; m < S; ++m) { f(m) = a.f(FN[m]); } }
};
template <int D> static void source()
{
   enum { N = D + 1 };
   TestSBP<D> el("H", "Q", "V", 0); TestMap<D, D> tr(&el, "J", "X"); double alpha = vp_real("alpha", -1, -2, 2);
   for (int i = 0; i < N; ++i) { vp_assume(tr.det(i) > 0.0); }
   Mms<D> in(alpha); Vector u(S * N), e; DenseMatrix J;
   for (int i = 0; i < S * N; ++i) { u(i) = vp_real("u", i, -1, 1); }
   vp_twice(e, [&](auto &o) { in.AssembleElementVector(el, tr, u, o); }); vp_twice(J, [&](auto &o) { in.AssembleElementGrad(el, tr, u, o); });
   vp_ieq("one entry per node and state", e.Size(), S * N);
   for (int i = 0; i < N; ++i) { Arg a; for (int d = 0; d < D; ++d) { a << tr.X[i][d]; } for (int m = 0; m < S; ++m) { vp_eq("the source is integrated with the element's norm", e(m * N + i), alpha * el.h(i) * tr.det(i) * a.f(FN[m])); } }
   vp_ieq("square Jacobian", J.Height(), S * N); vp_ieq("square Jacobian", J.Width(), S * N);
   for (int i = 0; i < S * N * S * N; ++i) { vp_eq("the source does not depend on the state", J.GetData()[i], 0.0); }
   vp_reach("source");
}
VP_HARNESS(h_source_1) { source<1>(); }
VP_HARNESS(h_source_2) { source<2>(); }
VP_HARNESS(h_source_3) { source<3>(); }
// the sources are those the exact solutions satisfy (C11)
static void mms(int D, bool visc)
{
   Vector x(D), f(D + 2), g(D + 2); for (int d = 0; d < D; ++d) { x(d) = vp_real("x", d, 0, 1); }
   if (visc)
   {
      double Re = vp_real("Re", 0, 0.5, 2), Pr = vp_real("Pr", 0, 0.5, 1); vp_assume(Re > 0.0 && Pr > 0.0);
      miso::NavierStokesMMSIntegrator in(Re, Pr, -1.0, D); in.calcSource(x, f); miso::calcViscousMMS<double>(D, 1.0 / Re, Pr, x.GetData(), g.GetData());
   }
   else { miso::InviscidMMSIntegrator in(-1.0, D); in.calcSource(x, f); miso::calcInviscidMMS<double>(D, x.GetData(), g.GetData()); }
   same("the source is that of the exact solution", f, g);
   vp_reach("mms");
}
VP_HARNESS(h_mms_2) { mms(2, false); }
VP_HARNESS(h_mms_3) { mms(3, false); }
VP_HARNESS(h_mms_visc_2) { mms(2, true); }
VP_HARNESS(h_mms_visc_3) { mms(3, true); }
