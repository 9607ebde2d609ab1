// Fixtures of the electromagnetic integrators.
#ifndef EM_FIXTURE_HPP
#define EM_FIXTURE_HPP
// material model of a state that does not vary within an element
struct MCoef : SCoef
{
   MCoef(const char *name) : SCoef(name) { }
   SArg arg(mfem::ElementTransformation &T, const IntegrationPoint &ip, double s) const
   {
      vp_true("the transformation stands at the point where the coefficient is evaluated", &T.GetIntPoint() == &ip);
      return arg(T.ElementNo, s);
   }
   // the derivative of a norm exists away from zero
   bool away = false;
   SArg arg(int e, double s) const { if (away) { vp_assume(s > 0.01); } SArg a(n); a << (double)e; a << s; return a; }
   using SCoef::Eval;
   using SCoef::EvalRevDiff;
   double Eval(mfem::ElementTransformation &T, const IntegrationPoint &ip, double s) override { return arg(T, ip, s).v(); }
   double EvalStateDeriv(mfem::ElementTransformation &T, const IntegrationPoint &ip, double s) override { return arg(T, ip, s).d(1); }
   double EvalState2ndDeriv(mfem::ElementTransformation &T, const IntegrationPoint &ip, const double s) override { return arg(T, ip, s).dd(1, 1); }
   void EvalRevDiff(double, mfem::ElementTransformation &T, const IntegrationPoint &ip, double s, DenseMatrix &) override { arg(T, ip, s); }
   double at(const Iso &t, double s) const { return arg(t.ElementNo, s).v(); }
};
// boundary data, constant within an element
struct BCoef : mfem::Coefficient
{
   const char *n;
   BCoef(const char *name) : n(name) { }
   double Eval(mfem::ElementTransformation &T, const IntegrationPoint &ip) override
   {
      vp_true("the transformation stands at the point where the coefficient is evaluated", &T.GetIntPoint() == &ip);
      return at(T.ElementNo);
   }
   double at(int e) const { Arg a; a << (double)e; return a.f(n); }
};
// the element is not degenerate: stated of the measure the transformation itself gives
static void vp_valid(Iso &t)
{
   for (int q = 0; q < NQ; ++q) { t.SetIntPoint(&vp_world.rule->IntPoint(q)); vp_assume(t.Weight() > 0.1); }
   t.put(t.X);
}
// mesh element whose Jacobians are the node matrix, with its columns scaled and permuted at the second point
struct PlainEl : MeshEl
{
   PlainEl(int D, const char *ns = "mN", bool quad = false, int order = 2) : MeshEl(D, ns, nullptr, quad, order)
   {
      for (int j = 0; j < D; ++j) { for (int k = 0; k < D; ++k) { d[0][j][k] = j == k ? 1.0 : 0.0; d[1][j][k] = D == 2 ? (j == k ? (j == 0 ? 2.0 : -3.0) * (j == 0 ? 1.0 : -1.0) : 0.0) : ((j + 1) % 3 == k ? 2.0 : 0.0); } }
   }
};
// gradient of basis function i at point q, times the determinant
static double vp_adjgrad(const El &e, const Iso &t, int q, int i, int a) { double r = 0.0; for (int b = 0; b < t.pd; ++b) { r += e.d[q][i][b] * t.adj(q, b, a); } return r; }
// gradient of basis function i at point q
static double vp_grad(const El &e, const Iso &t, int q, int i, int a) { return vp_adjgrad(e, t, q, i, a) / t.det(q); }
// curl of basis function i at point q, times the determinant
static double vp_detcurl(const El &e, const Iso &t, int q, int i, int a)
{
   if (t.pd != 3) { return e.c[q][i][0]; }
   double r = 0.0;
   for (int b = 0; b < 3; ++b) { r += t.J(q, a, b) * e.c[q][i][b]; }
   return r;
}
static double vp_norm2(const double *v, int n) { double r = 0.0; for (int k = 0; k < n; ++k) { r += v[k] * v[k]; } return r; }
static double vp_dot(const double *v, const double *w, int n) { double r = 0.0; for (int k = 0; k < n; ++k) { r += v[k] * w[k]; } return r; }
#endif
