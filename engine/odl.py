"""Headers of the installed MFEM with the declarations of the developers' branch
(ODL MFEM) that MISO's sensitivity code calls.  Written to a scratch directory
on every run; /usr/include is untouched.  The definitions are assumed contracts
on the dependency: each *RevDiff adds the exact derivative of its forward method
(harness od_contract checks them against the forward definitions)."""
import os, re, shutil
SRC = '/usr/include/mfem'

ISO = r'''
public:
   // ---- reverse mode (contracts of the developers' branch) ----
   void JacobianRevDiff(const DenseMatrix &J_bar, DenseMatrix &PM_bar)
   {
      DenseMatrix ds(FElem->GetDof(), FElem->GetDim());
      FElem->CalcDShape(*IntPoint, ds);
      for (int j = 0; j < ds.Height(); j++)
         for (int d = 0; d < J_bar.Height(); d++)
            for (int k = 0; k < ds.Width(); k++) { PM_bar(d, j) += J_bar(d, k) * ds(j, k); }
   }
   void WeightRevDiff(double w_bar, DenseMatrix &PM_bar)
   {
      const DenseMatrix &J = Jacobian();
      const DenseMatrix &A = AdjugateJacobian();
      const double s = J.Height() == J.Width() ? w_bar : w_bar / Weight();
      DenseMatrix J_bar(J.Height(), J.Width());
      for (int d = 0; d < J.Height(); d++)
         for (int k = 0; k < J.Width(); k++) { J_bar(d, k) = s * A(k, d); }
      JacobianRevDiff(J_bar, PM_bar);
   }
   void WeightRevDiff(DenseMatrix &PM_bar) { WeightRevDiff(1.0, PM_bar); }
   void AdjugateJacobianRevDiff(const DenseMatrix &A_bar, DenseMatrix &PM_bar)
   {
      const DenseMatrix &J = Jacobian();
      const int n = J.Height();
      DenseMatrix J_bar(n, n);
      J_bar = 0.0;
      if (n == 2)
      {
         J_bar(1, 1) += A_bar(0, 0); J_bar(0, 1) -= A_bar(0, 1); J_bar(1, 0) -= A_bar(1, 0); J_bar(0, 0) += A_bar(1, 1);
      }
      else if (n == 3)
      {
         for (int a = 0; a < 3; a++)
            for (int b = 0; b < 3; b++)
            {
               const int r0 = (b + 1) % 3, r1 = (b + 2) % 3, c0 = (a + 1) % 3, c1 = (a + 2) % 3;
               J_bar(r0, c0) += A_bar(a, b) * J(r1, c1); J_bar(r1, c1) += A_bar(a, b) * J(r0, c0);
               J_bar(r0, c1) -= A_bar(a, b) * J(r1, c0); J_bar(r1, c0) -= A_bar(a, b) * J(r0, c1);
            }
      }
      JacobianRevDiff(J_bar, PM_bar);
   }
   void InverseJacobianRevDiff(const DenseMatrix &K_bar, DenseMatrix &PM_bar)
   {
      const DenseMatrix &K = InverseJacobian();
      const int n = K.Height();
      DenseMatrix J_bar(n, n);
      for (int d = 0; d < n; d++)
         for (int k = 0; k < n; k++)
         {
            double s = 0.0;
            for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { s -= K(a, d) * K_bar(a, b) * K(k, b); }
            J_bar(d, k) = s;
         }
      JacobianRevDiff(J_bar, PM_bar);
   }
'''
COEF = r'''
   virtual void EvalRevDiff(const double Q_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar) { }
'''
VCOEF = r'''
   virtual void EvalRevDiff(const Vector &V_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar) { }
'''
FCOEF = r'''
   std::function<void(const Vector &, const double, Vector &)> VpRevDiff;
   FunctionCoefficient(std::function<double(const Vector &)> F, std::function<void(const Vector &, const double, Vector &)> G)
      : Function(std::move(F)), VpRevDiff(std::move(G)) { }
   void EvalRevDiff(const double Q_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar) override;
'''
VFCOEF = r'''
   std::function<void(const Vector &, const Vector &, Vector &)> VpRevDiff;
   VectorFunctionCoefficient(int dim, std::function<void(const Vector &, Vector &)> F, std::function<void(const Vector &, const Vector &, Vector &)> G, Coefficient *q = nullptr)
      : VectorCoefficient(dim), Function(std::move(F)), Q(q), VpRevDiff(std::move(G)) { }
   void EvalRevDiff(const Vector &V_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar) override;
'''
PCOEF = r'''
   void EvalRevDiff(const double Q_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar) override;
'''
SVPCOEF = r'''
   void EvalRevDiff(const Vector &V_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar) override;
'''
FE = r'''
   virtual void CalcPhysShapeRevDiff(ElementTransformation &Trans, const Vector &shape_bar, DenseMatrix &PointMat_bar) const;
   virtual void CalcVShapeRevDiff(ElementTransformation &Trans, const DenseMatrix &vshape_bar, DenseMatrix &PointMat_bar) const;
   virtual void CalcPhysCurlShapeRevDiff(ElementTransformation &Trans, const DenseMatrix &curl_bar, DenseMatrix &PointMat_bar) const;
'''
ORTHO = r'''
// whether the result is added or assigned is not documented; most callers clear it first and
// are proved for the stronger reading (added), those that do not for the other
inline void CalcOrthoRevDiff(const DenseMatrix &J, const Vector &n_bar, DenseMatrix &J_bar)
{
#ifdef VP_ORTHO_ASSIGN
   J_bar = 0.0;
#endif
   if (J.Height() == 2) { J_bar(1, 0) += n_bar(0); J_bar(0, 0) -= n_bar(1); return; }
   for (int a = 0; a < 3; a++)
   {
      const int p = (a + 1) % 3, q = (a + 2) % 3;
      J_bar(p, 0) += n_bar(a) * J(q, 1); J_bar(q, 1) += n_bar(a) * J(p, 0);
      J_bar(q, 0) -= n_bar(a) * J(p, 1); J_bar(p, 1) -= n_bar(a) * J(q, 0);
   }
}
'''
NLF = '''
   void AddDomainIntegrator(NonlinearFormIntegrator *nlfi, Array<int> &marker);
   void AddInternalBoundaryFaceIntegrator(NonlinearFormIntegrator *nlfi);
   void AddInternalBoundaryFaceIntegrator(NonlinearFormIntegrator *nlfi, Array<int> &marker);
'''
LF = '''
   void AddInternalBoundaryFaceIntegrator(LinearFormIntegrator *lfi);
   void AddInternalBoundaryFaceIntegrator(LinearFormIntegrator *lfi, Array<int> &marker);
'''
EDITS = [('fem/eltrans.hpp', 'class', 'IsoparametricTransformation', ISO), ('fem/coefficient.hpp', 'class', 'Coefficient', COEF),
         ('fem/coefficient.hpp', 'class', 'VectorCoefficient', VCOEF), ('fem/coefficient.hpp', 'class', 'FunctionCoefficient', FCOEF),
         ('fem/coefficient.hpp', 'class', 'VectorFunctionCoefficient', VFCOEF),
         ('fem/coefficient.hpp', 'class', 'ProductCoefficient', PCOEF), ('fem/coefficient.hpp', 'class', 'ScalarVectorProductCoefficient', SVPCOEF),
         ('fem/fe/fe_base.hpp', 'class', 'FiniteElement', FE), ('fem/nonlinearform.hpp', 'class', 'NonlinearForm', NLF), ('fem/linearform.hpp', 'class', 'LinearForm', LF),
         ('linalg/densemat.hpp', 'after', r'void CalcOrtho\(const DenseMatrix &J, Vector &n\);', ORTHO)]

def headers(dst):
    """dst/mfem.hpp etc.; idempotent"""
    if os.path.exists(os.path.join(dst, '.done')): return dst
    tmp = dst + '.%d' % os.getpid()
    shutil.copytree(SRC, tmp)
    for f, how, what, text in EDITS:
        p = os.path.join(tmp, f)
        s = open(p).read()
        if how == 'class':
            m = re.search(r'(?m)^class %s\b[^;{]*\{.*?^\};' % what, s, re.S)
            if not m: raise RuntimeError('overlay: class %s not found in %s' % (what, f))
            s = s[:m.end() - 2] + text + s[m.end() - 2:]
        else:
            m = re.search(what, s)
            if not m: raise RuntimeError('overlay: %s not found in %s' % (what, f))
            s = s[:m.end()] + text + s[m.end():]
        open(p, 'w').write(s)
    open(os.path.join(tmp, '.done'), 'w').close()
    try: os.rename(tmp, dst)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return dst
