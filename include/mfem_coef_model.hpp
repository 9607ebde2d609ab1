// Assumed contracts (reference definitions) of MFEM's function and product
// coefficients.  The value of a function coefficient is the function at the
// position of the point; EvalRevDiff (the developers' branch) adds the exact
// derivative of the value with respect to the node coordinates, given what the
// function's own reverse derivative stores (its result starts at zero).
// Also in the native replay: these take the place of the library's.
#ifndef VP_MFEM_COEF_MODEL
#define VP_MFEM_COEF_MODEL
namespace mfem
{
void Coefficient::Project(QuadratureFunction &) { abort(); }
void ConstantCoefficient::Project(QuadratureFunction &) { abort(); }
void VectorCoefficient::Eval(DenseMatrix &, ElementTransformation &, const IntegrationRule &) { abort(); }
void VectorCoefficient::Project(QuadratureFunction &) { abort(); }
static void vp_position_bar(ElementTransformation &T, const IntegrationPoint &ip, const Vector &x_bar, DenseMatrix &P)
{
   const FiniteElement *fe = static_cast<IsoparametricTransformation &>(T).GetFE();
   Vector s(fe->GetDof());
   fe->CalcShape(ip, s);
   for (int d = 0; d < x_bar.Size(); ++d) { for (int j = 0; j < s.Size(); ++j) { P(d, j) += x_bar(d) * s(j); } }
}
double FunctionCoefficient::Eval(ElementTransformation &T, const IntegrationPoint &ip)
{
   double x[3]; Vector p(x, 3);
   T.Transform(ip, p);
   return Function(p);
}
void FunctionCoefficient::EvalRevDiff(const double Q_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P)
{
   double x[3]; Vector p(x, 3);
   T.Transform(ip, p);
   double xb[3] = {0.0, 0.0, 0.0}; Vector x_bar(xb, p.Size());
   VpRevDiff(p, Q_bar, x_bar);
   vp_position_bar(T, ip, x_bar, P);
}
void VectorFunctionCoefficient::Eval(Vector &V, ElementTransformation &T, const IntegrationPoint &ip)
{
   double x[3]; Vector p(x, 3);
   T.Transform(ip, p);
   V.SetSize(vdim);
   Function(p, V);
}
void VectorFunctionCoefficient::EvalRevDiff(const Vector &V_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P)
{
   double x[3]; Vector p(x, 3);
   T.Transform(ip, p);
   double xb[3] = {0.0, 0.0, 0.0}; Vector x_bar(xb, p.Size());
   VpRevDiff(p, V_bar, x_bar);
   vp_position_bar(T, ip, x_bar, P);
}
void ProductCoefficient::SetTime(double) { abort(); }
void ProductCoefficient::EvalRevDiff(const double Q_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P)
{
   const double va = a ? a->Eval(T, ip) : aConst, vb = b->Eval(T, ip);
   if (a) { a->EvalRevDiff(Q_bar * vb, T, ip, P); }
   b->EvalRevDiff(Q_bar * va, T, ip, P);
}
ScalarVectorProductCoefficient::ScalarVectorProductCoefficient(Coefficient &A, VectorCoefficient &B) : VectorCoefficient(B.GetVDim()), aConst(0.0), a(&A), b(&B) { }
void ScalarVectorProductCoefficient::SetTime(double) { abort(); }
void ScalarVectorProductCoefficient::Eval(Vector &V, ElementTransformation &T, const IntegrationPoint &ip)
{
   const double s = a ? a->Eval(T, ip) : aConst;
   b->Eval(V, T, ip);
   V *= s;
}
void ScalarVectorProductCoefficient::EvalRevDiff(const Vector &V_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P)
{
   Vector vb(vdim);
   b->Eval(vb, T, ip);
   const double va = a ? a->Eval(T, ip) : aConst;
   if (a) { a->EvalRevDiff(V_bar * vb, T, ip, P); }
   for (int k = 0; k < vdim; ++k) { vb(k) = va * V_bar(k); }
   b->EvalRevDiff(vb, T, ip, P);
}
}
#endif
