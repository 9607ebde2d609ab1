// Assumed contracts (reference definitions) of MFEM's isoparametric
// transformations, finite element spaces, grid functions and quadrature rules,
// as far as the output, residual and sensitivity integrators use them.
// The quadrature rule, the element transformation of the mesh and the degrees
// of freedom of an element are those the harness provides (in the native replay
// too: the definitions at the end take the place of the library's).
#ifndef VP_MFEM_ISO_MODEL
#define VP_MFEM_ISO_MODEL
#include "mfem_fe_model.hpp"
struct VpSpace : mfem::FiniteElementSpace
{
   const mfem::FiniteElement *fe, *fe2 = nullptr;   // fe2, vd2, tr2: of the second element of a face
   mfem::Array<int> vd, vd2;       // degrees of freedom of the element
   mfem::Array<int> vdface;        // degrees of freedom of the face (boundary element)
   mfem::DofTransformation *tr, *tr2 = nullptr;
   VpSpace(const mfem::FiniteElement *f, mfem::DofTransformation *t) : fe(f), tr(t) { }
   const mfem::FiniteElement *GetFE(int e) const override;
   mfem::DofTransformation *GetElementDofs(int e, mfem::Array<int> &dofs) const override { return GetElementVDofs(e, dofs); }
   ~VpSpace() override { }
};
struct VpWorld
{
   const mfem::IntegrationRule *rule = nullptr, *seg = nullptr;   // seg: a rule on a segment for the integrals along a line
   mfem::ElementTransformation *trans = nullptr;
   mfem::FaceElementTransformations *face = nullptr;
   int segorder = -1, geom = -1, order = -1, asked = 0, elem = 3, elem2 = 5;   // elem, elem2: the only elements of the mesh that are asked for
   int faceno = 7; bool facebdr = true;    // the face: number of the boundary element (facebdr) or of the interior face
};
extern VpWorld vp_world;
VpWorld vp_world;
const mfem::FiniteElement *VpSpace::GetFE(int e) const { if (e == vp_world.elem2 && fe2) { return fe2; } if (e != vp_world.elem) { abort(); } return fe; }
#ifndef VP_NATIVE
namespace mfem
{
const DenseMatrix &IsoparametricTransformation::EvalJacobian()
{
   dFdx.SetSize(PointMat.Height(), FElem->GetDim());
   if (FElem->GetDim() > 0)
   {
      DenseMatrix ds(FElem->GetDof(), FElem->GetDim());
      FElem->CalcDShape(*IntPoint, ds);
      mfem::Mult(PointMat, ds, dFdx);
   }
   EvalState |= JACOBIAN_MASK;
   return dFdx;
}
const DenseMatrix &IsoparametricTransformation::EvalHessian() { mfem_error("no contract"); return d2Fdx2; }
void IsoparametricTransformation::Transform(const IntegrationPoint &ip, Vector &x)
{
   Vector s(FElem->GetDof());
   FElem->CalcShape(ip, s);
   x.SetSize(PointMat.Height());
   PointMat.Mult(s, x);
}
void IsoparametricTransformation::Transform(const IntegrationRule &, DenseMatrix &) { mfem_error("no contract"); }
void IsoparametricTransformation::Transform(const DenseMatrix &, DenseMatrix &) { mfem_error("no contract"); }
int IsoparametricTransformation::OrderJ() const { return FElem->Space() == FunctionSpace::Pk ? FElem->GetOrder() - 1 : FElem->GetOrder(); }
int IsoparametricTransformation::OrderW() const { return FElem->Space() == FunctionSpace::Pk ? (FElem->GetOrder() - 1) * FElem->GetDim() : FElem->GetOrder() * FElem->GetDim() - 1; }
int IsoparametricTransformation::OrderGrad(const FiniteElement *) const { mfem_error("no contract"); return 0; }
const DenseMatrix &ElementTransformation::EvalTransAdjugateJ()
{
   Jacobian(); adjJT.SetSize(dFdx.Height(), dFdx.Width());
   CalcAdjugateTranspose(dFdx, adjJT);
   EvalState |= TRANS_ADJUGATE_MASK; return adjJT;
}
const DenseMatrix &ElementTransformation::EvalInverseJ()
{
   Jacobian(); invJ.SetSize(dFdx.Width(), dFdx.Height());
   CalcInverse(dFdx, invJ);
   EvalState |= INVERSE_MASK; return invJ;
}
void FiniteElement::CalcPhysShape(ElementTransformation &T, Vector &shape) const
{
   CalcShape(T.GetIntPoint(), shape);
   if (map_type == INTEGRAL) { shape /= T.Weight(); }
}
void FiniteElement::CalcPhysDShape(ElementTransformation &T, DenseMatrix &d) const
{
   DenseMatrix v(dof, dim);
   CalcDShape(T.GetIntPoint(), v);
   Mult(v, T.InverseJacobian(), d);
}
FiniteElementSpace::FiniteElementSpace() : mesh(nullptr), fec(nullptr), vdim(1) { }
FiniteElementSpace::~FiniteElementSpace() { }
Table::~Table() { }
void GridFunction::Destroy() { }
// (key functions: their definitions emit the classes' virtual tables)
void GridFunction::SetFromTrueDofs(const Vector &) { mfem_error("no contract"); }
void FiniteElementSpace::UpdateMeshPointer(Mesh *m) { mesh = m; }
void DofTransformation::TransformPrimal(Vector &v) const { TransformPrimal(v.GetData()); }
void DofTransformation::InvTransformPrimal(Vector &v) const { InvTransformPrimal(v.GetData()); }
void DofTransformation::TransformDual(Vector &v) const { TransformDual(v.GetData()); }
void DofTransformation::InvTransformDual(Vector &v) const { InvTransformDual(v.GetData()); }
void DomainLFIntegrator::AssembleDevice(const FiniteElementSpace &, const Array<int> &, Vector &) { mfem_error("no contract"); }
const int Geometry::Dimension[Geometry::NumGeom] = { 0, 1, 2, 2, 3, 3, 3, 3 };
void DomainLFIntegrator::AssembleDeltaElementVect(const FiniteElement &, ElementTransformation &, Vector &) { mfem_error("no contract"); }
void VectorFEDomainLFCurlIntegrator::AssembleDeltaElementVect(const FiniteElement &, ElementTransformation &, Vector &) { mfem_error("no contract"); }
void FaceElementTransformations::Transform(const IntegrationPoint &ip, Vector &x) { IsoparametricTransformation::Transform(ip, x); }
void FaceElementTransformations::Transform(const IntegrationRule &, DenseMatrix &) { mfem_error("no contract"); }
void FaceElementTransformations::Transform(const DenseMatrix &, DenseMatrix &) { mfem_error("no contract"); }
}  // namespace mfem
#endif
namespace mfem
{
const IntegrationRule &IntegrationRules::Get(int g, int o) { if (g == Geometry::SEGMENT && vp_world.seg) { vp_world.segorder = o; return *vp_world.seg; } vp_world.geom = g + (this == &RefinedIntRules ? 100 : 0); vp_world.order = o; vp_world.asked++; return *vp_world.rule; }
ElementTransformation *Mesh::GetElementTransformation(int e) { if (e != vp_world.elem) { abort(); } vp_world.trans->Reset(); return vp_world.trans; }
void DomainLFIntegrator::AssembleRHSElementVect(const FiniteElement &el, ElementTransformation &Tr, Vector &elvect)
{
   shape.SetSize(el.GetDof());
   elvect.SetSize(el.GetDof());
   elvect = 0.0;
   const IntegrationRule *ir = IntRule ? IntRule : &IntRules.Get(el.GetGeomType(), oa * el.GetOrder() + ob);
   for (int i = 0; i < ir->GetNPoints(); i++)
   {
      const IntegrationPoint &ip = ir->IntPoint(i);
      Tr.SetIntPoint(&ip);
      double val = Tr.Weight() * Q.Eval(Tr, ip);
      el.CalcPhysShape(Tr, shape);
      add(elvect, ip.weight * val, shape, elvect);
   }
}
void VectorFEDomainLFCurlIntegrator::AssembleRHSElementVect(const FiniteElement &el, ElementTransformation &Tr, Vector &elvect)
{
   const int dof = el.GetDof(), dimc = el.GetDim() == 3 ? 3 : 1;
   curlshape.SetSize(dof, dimc);
   elvect.SetSize(dof);
   elvect = 0.0;
   const IntegrationRule *ir = IntRule ? IntRule : &IntRules.Get(el.GetGeomType(), 2 * el.GetOrder());
   for (int i = 0; i < ir->GetNPoints(); i++)
   {
      const IntegrationPoint &ip = ir->IntPoint(i);
      Tr.SetIntPoint(&ip);
      el.CalcPhysCurlShape(Tr, curlshape);
      QF->Eval(vec, Tr, ip);
      vec *= ip.weight * Tr.Weight();
      curlshape.AddMult(vec, elvect);
   }
}
DofTransformation *FiniteElementSpace::GetElementVDofs(int e, Array<int> &vdofs) const
{
   const VpSpace *s = static_cast<const VpSpace *>(this);
   if (e == vp_world.elem2 && s->fe2)
   {
      vdofs.SetSize(s->vd2.Size());
      for (int i = 0; i < s->vd2.Size(); i++) { vdofs[i] = s->vd2[i]; }
      return s->tr2;
   }
   if (e != vp_world.elem) { abort(); }
   vdofs.SetSize(s->vd.Size());
   for (int i = 0; i < s->vd.Size(); i++) { vdofs[i] = s->vd[i]; }
   return s->tr;
}
static void vp_face_vdofs(const FiniteElementSpace *f, int e, Array<int> &vdofs, bool bdr)
{
   if (e != vp_world.faceno || bdr != vp_world.facebdr) { abort(); }
   const VpSpace *s = static_cast<const VpSpace *>(f);
   vdofs.SetSize(s->vdface.Size());
   for (int i = 0; i < s->vdface.Size(); i++) { vdofs[i] = s->vdface[i]; }
}
DofTransformation *FiniteElementSpace::GetBdrElementVDofs(int e, Array<int> &vdofs) const { vp_face_vdofs(this, e, vdofs, true); return nullptr; }
void FiniteElementSpace::GetFaceVDofs(int e, Array<int> &vdofs) const { vp_face_vdofs(this, e, vdofs, false); }
FaceElementTransformations *Mesh::GetBdrFaceTransformations(int e) { if (e != vp_world.faceno || !vp_world.facebdr) { abort(); } vp_world.face->Reset(); return vp_world.face; }
void FaceElementTransformations::SetIntPoint(const IntegrationPoint *ip)
{
   IsoparametricTransformation::SetIntPoint(ip);
   if (Elem1) { Loc1.Transform(*ip, eip1); Elem1->SetIntPoint(&eip1); }
   if (Elem2) { Loc2.Transform(*ip, eip2); Elem2->SetIntPoint(&eip2); }
}
}  // namespace mfem
#endif
