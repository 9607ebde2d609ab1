// Assumed contracts of MFEM's finite-element base classes and element
// transformations (reference definitions, see mfem_model.hpp).
#ifndef VP_MFEM_FE_MODEL
#define VP_MFEM_FE_MODEL
#include "mfem_model.hpp"
#ifndef VP_NATIVE
namespace mfem
{
FiniteElement::FiniteElement(int D, Geometry::Type G, int Do, int O, int F) : Nodes(Do)
{
   dim = D; vdim = 0; cdim = 0; geom_type = G; dof = Do; order = O; func_space = F;
   range_type = SCALAR; map_type = VALUE; deriv_type = NONE; deriv_range_type = SCALAR; deriv_map_type = VALUE;
   for (int i = 0; i < Geometry::MaxDim; i++) { orders[i] = -1; }
}
FiniteElement::~FiniteElement() { }
FiniteElementCollection::~FiniteElementCollection() { }
ElementTransformation::ElementTransformation() : IntPoint(NULL), EvalState(0), geom(Geometry::INVALID), Attribute(-1), ElementNo(-1), mesh(NULL) { }
double ElementTransformation::EvalWeight() { Jacobian(); EvalState |= WEIGHT_MASK; return (Wght = (dFdx.Width() == 0) ? 1.0 : dFdx.Weight()); }
const DenseMatrix &ElementTransformation::EvalAdjugateJ()
{
   Jacobian(); adjJ.SetSize(dFdx.Width(), dFdx.Height());
   if (dFdx.Width() > 0) { CalcAdjugate(dFdx, adjJ); }
   EvalState |= ADJUGATE_MASK; return adjJ;
}
PointFiniteElement::PointFiniteElement() : NodalFiniteElement(0, Geometry::POINT, 1, 0) { Nodes.IntPoint(0).x = 0.0; }
void PointFiniteElement::CalcShape(const IntegrationPoint &, Vector &shape) const { shape(0) = 1.; }
void PointFiniteElement::CalcDShape(const IntegrationPoint &, DenseMatrix &) const { }
// x = P phi(ip)
void IntegrationPointTransformation::Transform(const IntegrationPoint &ip1, IntegrationPoint &ip2)
{
   const DenseMatrix &P = Transf.GetPointMat();
   Vector s(Transf.GetFE()->GetDof()), v(P.Height());
   Transf.GetFE()->CalcShape(ip1, s);
   P.Mult(s, v);
   ip2.Set(v.GetData(), v.Size());
}
void DenseMatrix::InvLeftScaling(const Vector &s) { for (int j = 0; j < width; j++) { for (int i = 0; i < height; i++) { (*this)(i, j) *= 1.0 / s(i); } } }
void DenseMatrix::InvRightScaling(const Vector &s) { for (int j = 0; j < width; j++) { for (int i = 0; i < height; i++) { (*this)(i, j) *= 1.0 / s(j); } } }
void MultAAt(const DenseMatrix &a, DenseMatrix &aat)
{
   for (int i = 0; i < a.Height(); i++) { for (int j = 0; j < a.Height(); j++) { double s = 0.0; for (int k = 0; k < a.Width(); k++) { s += a(i, k) * a(j, k); } aat(i, j) = s; } }
}
}  // namespace mfem
#endif
#endif
