// Assumed contracts of the MFEM library, written as reference definitions.
// In the verifier these stand for libmfem.so (a dependency, not code of the
// repository); they say what MFEM documents each operation to do.  A native
// replay links the real libmfem instead.
#ifndef VP_MFEM_MODEL
#define VP_MFEM_MODEL
#include "mfem.hpp"
#ifndef VP_NATIVE
namespace mfem
{
MemoryType MemoryManager::host_mem_type = MemoryType::HOST;
MemoryType MemoryManager::device_mem_type = MemoryType::HOST;
MemoryManager::MemoryManager() { }
MemoryManager::~MemoryManager() { }
MemoryManager mm;
void MemoryManager::Delete_(void *h_ptr, MemoryType mt, unsigned flags) { }
void MemoryManager::Copy_(void *dst, const void *src, size_t bytes, unsigned, unsigned &) { memcpy(dst, src, bytes); }
void *MemoryManager::ReadWrite_(void *h_ptr, MemoryType, MemoryClass, size_t, unsigned &) { return h_ptr; }
const void *MemoryManager::Read_(void *h_ptr, MemoryType, MemoryClass, size_t, unsigned &) { return h_ptr; }
void *MemoryManager::Write_(void *h_ptr, MemoryType, MemoryClass, size_t, unsigned &) { return h_ptr; }
// ------------------------------------------------------------- Vector
Vector::Vector(const Vector &v)
{
   size = v.size;
   if (size > 0) { data.New(size); for (int i = 0; i < size; i++) { data[i] = v.data[i]; } }
   else { data.Reset(); }
}
Vector::Vector(Vector &&v) { *this = std::move(v); }
double &Vector::Elem(int i) { return operator()(i); }
const double &Vector::Elem(int i) const { return operator()(i); }
double Vector::operator*(const double *v) const { double s = 0.0; for (int i = 0; i < size; i++) { s += data[i] * v[i]; } return s; }
double Vector::operator*(const Vector &v) const
{
   if (size != v.size) { mfem_error("incompatible Vectors!"); }
   double s = 0.0; for (int i = 0; i < size; i++) { s += data[i] * v.data[i]; } return s;
}
Vector &Vector::operator=(const double *v) { for (int i = 0; i < size; i++) { data[i] = v[i]; } return *this; }
Vector &Vector::operator=(const Vector &v)
{
   if (this == &v) { return *this; }
   SetSize(v.size);
   for (int i = 0; i < size; i++) { data[i] = v.data[i]; }
   return *this;
}
Vector &Vector::operator=(Vector &&v) { data = std::move(v.data); size = v.size; v.data.Reset(); v.size = 0; return *this; }
Vector &Vector::operator=(double value) { for (int i = 0; i < size; i++) { data[i] = value; } return *this; }
Vector &Vector::operator*=(double c) { for (int i = 0; i < size; i++) { data[i] *= c; } return *this; }
Vector &Vector::operator*=(const Vector &v) { for (int i = 0; i < size; i++) { data[i] *= v.data[i]; } return *this; }
Vector &Vector::operator/=(double c) { for (int i = 0; i < size; i++) { data[i] *= 1.0 / c; } return *this; }
Vector &Vector::operator/=(const Vector &v) { for (int i = 0; i < size; i++) { data[i] /= v.data[i]; } return *this; }
Vector &Vector::operator-=(double c) { for (int i = 0; i < size; i++) { data[i] -= c; } return *this; }
Vector &Vector::operator-=(const Vector &v)
{
   if (size != v.size) { mfem_error("incompatible Vectors!"); }
   for (int i = 0; i < size; i++) { data[i] -= v.data[i]; } return *this;
}
Vector &Vector::operator+=(double c) { for (int i = 0; i < size; i++) { data[i] += c; } return *this; }
Vector &Vector::operator+=(const Vector &v)
{
   if (size != v.size) { mfem_error("incompatible Vectors!"); }
   for (int i = 0; i < size; i++) { data[i] += v.data[i]; } return *this;
}
Vector &Vector::Add(const double a, const Vector &Va)
{
   if (size != Va.size) { mfem_error("incompatible Vectors!"); }
   for (int i = 0; i < size; i++) { data[i] += a * Va.data[i]; } return *this;
}
Vector &Vector::Set(const double a, const Vector &Va)
{
   if (size != Va.size) { mfem_error("incompatible Vectors!"); }
   for (int i = 0; i < size; i++) { data[i] = a * Va.data[i]; } return *this;
}
void Vector::SetVector(const Vector &v, int offset) { for (int i = 0; i < v.size; i++) { data[i + offset] = v.data[i]; } }
void Vector::AddSubVector(const Vector &v, int offset) { for (int i = 0; i < v.size; i++) { data[i + offset] += v.data[i]; } }
void Vector::Neg() { for (int i = 0; i < size; i++) { data[i] = -data[i]; } }
double Vector::Norml2() const
{
   double s = 0.0; for (int i = 0; i < size; i++) { s += data[i] * data[i]; } return sqrt(s);
}
double Vector::Norml1() const { double s = 0.0; for (int i = 0; i < size; i++) { s += fabs(data[i]); } return s; }
double Vector::Normlinf() const { double s = 0.0; for (int i = 0; i < size; i++) { s = fmax(s, fabs(data[i])); } return s; }
double Vector::Max() const { double s = data[0]; for (int i = 1; i < size; i++) { s = fmax(s, data[i]); } return s; }
double Vector::Min() const { double s = data[0]; for (int i = 1; i < size; i++) { s = fmin(s, data[i]); } return s; }
double Vector::Sum() const { double s = 0.0; for (int i = 0; i < size; i++) { s += data[i]; } return s; }
static void vp_same(int a, int b) { if (a != b) { mfem_error("incompatible Vectors!"); } }
void add(const Vector &v1, const Vector &v2, Vector &v) { vp_same(v.size, v1.size); vp_same(v.size, v2.size); for (int i = 0; i < v.size; i++) { v.data[i] = v1.data[i] + v2.data[i]; } }
void add(const Vector &v1, double alpha, const Vector &v2, Vector &v) { vp_same(v.size, v1.size); vp_same(v.size, v2.size); for (int i = 0; i < v.size; i++) { v.data[i] = v1.data[i] + alpha * v2.data[i]; } }
void add(const double a, const Vector &x, const Vector &y, Vector &z) { vp_same(z.size, x.size); vp_same(z.size, y.size); for (int i = 0; i < z.size; i++) { z.data[i] = a * (x.data[i] + y.data[i]); } }
void add(const double a, const Vector &x, const double b, const Vector &y, Vector &z) { vp_same(z.size, x.size); vp_same(z.size, y.size); for (int i = 0; i < z.size; i++) { z.data[i] = a * x.data[i] + b * y.data[i]; } }
void subtract(const Vector &x, const Vector &y, Vector &z) { vp_same(z.size, x.size); vp_same(z.size, y.size); for (int i = 0; i < z.size; i++) { z.data[i] = x.data[i] - y.data[i]; } }
void subtract(const double a, const Vector &x, const Vector &y, Vector &z) { vp_same(z.size, x.size); vp_same(z.size, y.size); for (int i = 0; i < z.size; i++) { z.data[i] = a * (x.data[i] - y.data[i]); } }
void Vector::GetSubVector(const Array<int> &dofs, Vector &e) const
{
   e.SetSize(dofs.Size());
   for (int i = 0; i < dofs.Size(); i++) { const int j = dofs[i]; e.data[i] = j >= 0 ? data[j] : -data[-1 - j]; }
}
void Vector::SetSubVector(const Array<int> &dofs, const Vector &e)
{
   for (int i = 0; i < dofs.Size(); i++) { const int j = dofs[i]; if (j >= 0) { data[j] = e.data[i]; } else { data[-1 - j] = -e.data[i]; } }
}
void Vector::SetSubVector(const Array<int> &dofs, const double value)
{
   for (int i = 0; i < dofs.Size(); i++) { const int j = dofs[i]; if (j >= 0) { data[j] = value; } else { data[-1 - j] = -value; } }
}
void Vector::AddElementVector(const Array<int> &dofs, const Vector &e)
{
   for (int i = 0; i < dofs.Size(); i++) { const int j = dofs[i]; if (j >= 0) { data[j] += e.data[i]; } else { data[-1 - j] -= e.data[i]; } }
}
void Vector::AddElementVector(const Array<int> &dofs, const double a, const Vector &e)
{
   for (int i = 0; i < dofs.Size(); i++) { const int j = dofs[i]; if (j >= 0) { data[j] += a * e.data[i]; } else { data[-1 - j] -= a * e.data[i]; } }
}
void Vector::SetSubVectorComplement(const Array<int> &dofs, const double val)
{
   for (int i = 0; i < size; i++)
   {
      bool in = false;
      for (int k = 0; k < dofs.Size(); k++) { if (dofs[k] == i) { in = true; } }
      if (!in) { data[i] = val; }
   }
}
// ---------------------------------------------------- IterativeSolver
IterativeSolver::IterativeSolver() : Solver(0, true)
{
   oper = NULL; prec = NULL; max_iter = 10; rel_tol = abs_tol = 0.0; dot_prod_type = 0;
}
IterativeSolver::IterativeSolver(MPI_Comm c) : Solver(0, true)
{
   oper = NULL; prec = NULL; max_iter = 10; rel_tol = abs_tol = 0.0; dot_prod_type = 1; comm = c;
}
double IterativeSolver::Dot(const Vector &x, const Vector &y) const { return x * y; }
void IterativeSolver::SetPrintLevel(int l) { print_level = l; }
void IterativeSolver::SetPrintLevel(PrintLevel) { }
void IterativeSolver::SetPreconditioner(Solver &pr) { prec = &pr; prec->iterative_mode = false; }
void IterativeSolver::SetOperator(const Operator &op)
{
   oper = &op; height = op.Height(); width = op.Width();
   if (prec) { prec->SetOperator(*oper); }
}
void IterativeSolver::Monitor(int, double, const Vector &, const Vector &, bool) const { }
void NewtonSolver::SetOperator(const Operator &op)
{
   oper = &op; height = op.Height(); width = op.Width();
   r.SetSize(width); c.SetSize(width);
}
void NewtonSolver::AdaptiveLinRtolPreSolve(const Vector &, const int, const double) const { }
void NewtonSolver::AdaptiveLinRtolPostSolve(const Vector &, const Vector &, const int, const double) const { }
// Newton's method as documented: x <- x - scale * J(x)^{-1} (F(x) - b)
void NewtonSolver::Mult(const Vector &b, Vector &x) const
{
   double norm0, norm, norm_goal;
   const bool have_b = (b.Size() == Height());
   if (!iterative_mode) { x = 0.0; }
   ProcessNewState(x);
   oper->Mult(x, r);
   if (have_b) { r -= b; }
   norm0 = norm = initial_norm = Norm(r);
   norm_goal = std::max(rel_tol * norm, abs_tol);
   prec->iterative_mode = false;
   int it = 0;
   for (; true; it++)
   {
      if (norm <= norm_goal) { converged = true; break; }
      if (it >= max_iter) { converged = false; break; }
      grad = &oper->GetGradient(x);
      prec->SetOperator(*grad);
      prec->Mult(r, c);
      const double c_scale = ComputeScalingFactor(x, b);
      if (c_scale == 0.0) { converged = false; break; }
      add(x, -c_scale, c, x);
      ProcessNewState(x);
      oper->Mult(x, r);
      if (have_b) { r -= b; }
      norm = Norm(r);
   }
   final_iter = it;
   final_norm = norm;
}
// ---------------------------------------------------------- ODE solvers
void ODESolver::Init(TimeDependentOperator &f_) { this->f = &f_; mem_type = MemoryType::HOST; }
void ForwardEulerSolver::Init(TimeDependentOperator &f_) { ODESolver::Init(f_); dxdt.SetSize(f->Width()); }
void ForwardEulerSolver::Step(Vector &x, double &t, double &dt) { f->SetTime(t); f->Mult(x, dxdt); x.Add(dt, dxdt); t += dt; }
void RK4Solver::Init(TimeDependentOperator &f_)
{
   ODESolver::Init(f_);
   const int n = f->Width();
   y.SetSize(n); k.SetSize(n); z.SetSize(n);
}
void RK4Solver::Step(Vector &x, double &t, double &dt)
{
   f->SetTime(t); f->Mult(x, k); mfem::add(x, dt / 2, k, y); mfem::add(x, dt / 6, k, z);
   f->SetTime(t + dt / 2); f->Mult(y, k); mfem::add(x, dt / 2, k, y); z.Add(dt / 3, k);
   f->Mult(y, k); mfem::add(x, dt, k, y); z.Add(dt / 3, k);
   f->SetTime(t + dt); f->Mult(y, k); mfem::add(z, dt / 6, k, x);
   t += dt;
}
void ImplicitMidpointSolver::Init(TimeDependentOperator &f_) { ODESolver::Init(f_); k.SetSize(f->Width()); }
void ImplicitMidpointSolver::Step(Vector &x, double &t, double &dt) { f->SetTime(t + dt / 2); f->ImplicitSolve(dt / 2, x, k); x.Add(dt, k); t += dt; }
// -------------------------------------------------------- DenseMatrix
DenseMatrix::DenseMatrix() : Matrix(0) { }
DenseMatrix::DenseMatrix(int s) : Matrix(s)
{
   const int n = s * s;
   if (n > 0) { data.New(n); for (int i = 0; i < n; i++) { data[i] = 0.0; } }
}
DenseMatrix::DenseMatrix(int m, int n) : Matrix(m, n)
{
   const int c = m * n;
   if (c > 0) { data.New(c); for (int i = 0; i < c; i++) { data[i] = 0.0; } }
}
DenseMatrix::DenseMatrix(const DenseMatrix &m) : Matrix(m.height, m.width)
{
   const int c = height * width;
   if (c > 0) { data.New(c); for (int i = 0; i < c; i++) { data[i] = m.data[i]; } }
}
DenseMatrix::~DenseMatrix() { data.Delete(); }
void DenseMatrix::FNorm(double &scale, double &sum) const { scale = 1.0; sum = 0.0; for (int i = 0; i < height * width; i++) { sum += data[i] * data[i]; } }
void DenseMatrix::SetSize(int h, int w)
{
   if (Height() == h && Width() == w) { return; }
   height = h; width = w;
   const int hw = h * w;
   if (hw > data.Capacity())
   {
      data.Delete(); data.New(hw);
      for (int i = 0; i < hw; i++) { data[i] = 0.0; }
   }
}
double &DenseMatrix::Elem(int i, int j) { return (*this)(i, j); }
const double &DenseMatrix::Elem(int i, int j) const { return (*this)(i, j); }
DenseMatrix &DenseMatrix::operator=(double c) { for (int i = 0; i < height * width; i++) { data[i] = c; } return *this; }
DenseMatrix &DenseMatrix::operator=(const double *d) { for (int i = 0; i < height * width; i++) { data[i] = d[i]; } return *this; }
DenseMatrix &DenseMatrix::operator=(const DenseMatrix &m)
{
   SetSize(m.height, m.width);
   for (int i = 0; i < height * width; i++) { data[i] = m.data[i]; }
   return *this;
}
DenseMatrix &DenseMatrix::operator+=(const DenseMatrix &m) { for (int i = 0; i < height * width; i++) { data[i] += m.data[i]; } return *this; }
DenseMatrix &DenseMatrix::operator+=(const double *m) { for (int i = 0; i < height * width; i++) { data[i] += m[i]; } return *this; }
DenseMatrix &DenseMatrix::operator-=(const DenseMatrix &m) { for (int i = 0; i < height * width; i++) { data[i] -= m.data[i]; } return *this; }
DenseMatrix &DenseMatrix::operator*=(double c) { for (int i = 0; i < height * width; i++) { data[i] *= c; } return *this; }
void DenseMatrix::Set(double alpha, const double *A) { for (int i = 0; i < height * width; i++) { data[i] = alpha * A[i]; } }
void DenseMatrix::Add(const double c, const DenseMatrix &A) { for (int j = 0; j < width; j++) { for (int i = 0; i < height; i++) { (*this)(i, j) += c * A(i, j); } } }
void DenseMatrix::Mult(const double *x, double *y) const
{
   for (int i = 0; i < height; i++) { double s = 0.0; for (int j = 0; j < width; j++) { s += (*this)(i, j) * x[j]; } y[i] = s; }
}
void DenseMatrix::Mult(const Vector &x, Vector &y) const { vp_same(width, x.Size()); vp_same(height, y.Size()); Mult((const double *)x.GetData(), y.GetData()); }
double DenseMatrix::operator*(const DenseMatrix &m) const
{
   double s = 0.0; for (int i = 0; i < height * width; i++) { s += data[i] * m.data[i]; } return s;
}
void DenseMatrix::MultTranspose(const double *x, double *y) const
{
   for (int j = 0; j < width; j++) { double s = 0.0; for (int i = 0; i < height; i++) { s += (*this)(i, j) * x[i]; } y[j] = s; }
}
void DenseMatrix::MultTranspose(const Vector &x, Vector &y) const { MultTranspose((const double *)x.GetData(), y.GetData()); }
void DenseMatrix::AddMult(const Vector &x, Vector &y, const double a) const
{
   for (int i = 0; i < height; i++) { for (int j = 0; j < width; j++) { y(i) += a * (*this)(i, j) * x(j); } }
}
void DenseMatrix::AddMultTranspose(const Vector &x, Vector &y, const double a) const
{
   for (int j = 0; j < width; j++) { for (int i = 0; i < height; i++) { y(j) += a * (*this)(i, j) * x(i); } }
}
void DenseMatrix::AddMult_a(double a, const Vector &x, Vector &y) const
{
   for (int i = 0; i < height; i++) { for (int j = 0; j < width; j++) { y(i) += a * (*this)(i, j) * x(j); } }
}
void DenseMatrix::AddMultTranspose_a(double a, const Vector &x, Vector &y) const
{
   for (int j = 0; j < width; j++) { for (int i = 0; i < height; i++) { y(j) += a * (*this)(i, j) * x(i); } }
}
double DenseMatrix::InnerProduct(const double *x, const double *y) const
{
   double s = 0.0; for (int i = 0; i < height; i++) { for (int j = 0; j < width; j++) { s += y[i] * (*this)(i, j) * x[j]; } } return s;
}
MatrixInverse *DenseMatrix::Inverse() const { mfem_error("no contract"); return NULL; }
double DenseMatrix::Trace() const { double s = 0.0; for (int i = 0; i < width; i++) { s += (*this)(i, i); } return s; }
double DenseMatrix::Det() const
{
   const double *d = data;
   switch (height)
   {
   case 1: return d[0];
   case 2: return d[0] * d[3] - d[1] * d[2];
   case 3: return d[0] * (d[4] * d[8] - d[5] * d[7]) + d[3] * (d[2] * d[7] - d[1] * d[8]) + d[6] * (d[1] * d[5] - d[2] * d[4]);
   }
   mfem_error("no contract"); return 0.0;
}
double DenseMatrix::Weight() const
{
   const double *d = data;
   if (height == width) { return Det(); }
   if (height == 2 && width == 1) { return sqrt(d[0] * d[0] + d[1] * d[1]); }
   if (height == 3 && width == 1) { return sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]); }
   if (height == 3 && width == 2)
   {
      double E = d[0] * d[0] + d[1] * d[1] + d[2] * d[2], G = d[3] * d[3] + d[4] * d[4] + d[5] * d[5], F = d[0] * d[3] + d[1] * d[4] + d[2] * d[5];
      return sqrt(E * G - F * F);
   }
   mfem_error("no contract"); return 0.0;
}
void DenseMatrix::Transpose()
{
   DenseMatrix t(*this); const int h = height, w = width;
   SetSize(w, h);
   for (int i = 0; i < h; i++) { for (int j = 0; j < w; j++) { (*this)(j, i) = t(i, j); } }
}
void DenseMatrix::Transpose(const DenseMatrix &A)
{
   SetSize(A.Width(), A.Height());
   for (int i = 0; i < Height(); i++) { for (int j = 0; j < Width(); j++) { (*this)(i, j) = A(j, i); } }
}
void DenseMatrix::Neg() { for (int i = 0; i < height * width; i++) { data[i] = -data[i]; } }
void DenseMatrix::GetRow(int r, Vector &row) const { row.SetSize(width); for (int j = 0; j < width; j++) { row(j) = (*this)(r, j); } }
void DenseMatrix::GetColumn(int c, Vector &col) const { col.SetSize(height); for (int i = 0; i < height; i++) { col(i) = (*this)(i, c); } }
void DenseMatrix::SetRow(int r, const double *row) { for (int j = 0; j < width; j++) { (*this)(r, j) = row[j]; } }
void DenseMatrix::SetRow(int r, const Vector &row) { for (int j = 0; j < width; j++) { (*this)(r, j) = row(j); } }
void DenseMatrix::SetRow(int r, double v) { for (int j = 0; j < width; j++) { (*this)(r, j) = v; } }
void DenseMatrix::SetCol(int c, const double *col) { for (int i = 0; i < height; i++) { (*this)(i, c) = col[i]; } }
void DenseMatrix::SetCol(int c, const Vector &col) { for (int i = 0; i < height; i++) { (*this)(i, c) = col(i); } }
void DenseMatrix::SetCol(int c, double v) { for (int i = 0; i < height; i++) { (*this)(i, c) = v; } }
void DenseMatrix::CopyCols(const DenseMatrix &A, int col1, int col2) { SetSize(A.Height(), col2 - col1 + 1); for (int j = col1; j <= col2; j++) { for (int i = 0; i < height; i++) { (*this)(i, j - col1) = A(i, j); } } }
void DenseMatrix::Diag(double c, int n) { SetSize(n); for (int i = 0; i < n * n; i++) { data[i] = 0.0; } for (int i = 0; i < n; i++) { (*this)(i, i) = c; } }
void DenseMatrix::GetDiag(Vector &d) const { d.SetSize(height); for (int i = 0; i < height; i++) { d(i) = (*this)(i, i); } }
void DenseMatrix::LeftScaling(const Vector &s) { for (int j = 0; j < width; j++) { for (int i = 0; i < height; i++) { (*this)(i, j) *= s(i); } } }
void DenseMatrix::RightScaling(const Vector &s) { for (int j = 0; j < width; j++) { for (int i = 0; i < height; i++) { (*this)(i, j) *= s(j); } } }
void Add(const DenseMatrix &A, const DenseMatrix &B, double alpha, DenseMatrix &C)
{
   for (int j = 0; j < C.Width(); j++) { for (int i = 0; i < C.Height(); i++) { C(i, j) = A(i, j) + alpha * B(i, j); } }
}
void Mult(const DenseMatrix &b, const DenseMatrix &c, DenseMatrix &a)
{
   for (int i = 0; i < a.Height(); i++) { for (int j = 0; j < a.Width(); j++) { double s = 0.0; for (int k = 0; k < b.Width(); k++) { s += b(i, k) * c(k, j); } a(i, j) = s; } }
}
void MultAtB(const DenseMatrix &A, const DenseMatrix &B, DenseMatrix &AtB)
{
   for (int i = 0; i < AtB.Height(); i++) { for (int j = 0; j < AtB.Width(); j++) { double s = 0.0; for (int k = 0; k < A.Height(); k++) { s += A(k, i) * B(k, j); } AtB(i, j) = s; } }
}
void MultABt(const DenseMatrix &A, const DenseMatrix &B, DenseMatrix &ABt)
{
   for (int i = 0; i < ABt.Height(); i++) { for (int j = 0; j < ABt.Width(); j++) { double s = 0.0; for (int k = 0; k < A.Width(); k++) { s += A(i, k) * B(j, k); } ABt(i, j) = s; } }
}
void AddMult(const DenseMatrix &b, const DenseMatrix &c, DenseMatrix &a)
{
   for (int i = 0; i < a.Height(); i++) { for (int j = 0; j < a.Width(); j++) { for (int k = 0; k < b.Width(); k++) { a(i, j) += b(i, k) * c(k, j); } } }
}
void AddMultABt(const DenseMatrix &A, const DenseMatrix &B, DenseMatrix &ABt)
{
   for (int i = 0; i < ABt.Height(); i++) { for (int j = 0; j < ABt.Width(); j++) { for (int k = 0; k < A.Width(); k++) { ABt(i, j) += A(i, k) * B(j, k); } } }
}
void AddMult_a_ABt(double a, const DenseMatrix &A, const DenseMatrix &B, DenseMatrix &ABt)
{
   for (int i = 0; i < ABt.Height(); i++) { for (int j = 0; j < ABt.Width(); j++) { for (int k = 0; k < A.Width(); k++) { ABt(i, j) += a * A(i, k) * B(j, k); } } }
}
void AddMult_a_AAt(double a, const DenseMatrix &A, DenseMatrix &AAt)
{
   for (int i = 0; i < A.Height(); i++) { for (int j = 0; j < A.Height(); j++) { for (int k = 0; k < A.Width(); k++) { AAt(i, j) += a * A(i, k) * A(j, k); } } }
}
void MultVWt(const Vector &v, const Vector &w, DenseMatrix &VWt)
{
   VWt.SetSize(v.Size(), w.Size());
   for (int i = 0; i < v.Size(); i++) { for (int j = 0; j < w.Size(); j++) { VWt(i, j) = v(i) * w(j); } }
}
void AddMultVWt(const Vector &v, const Vector &w, DenseMatrix &VWt)
{
   for (int i = 0; i < v.Size(); i++) { for (int j = 0; j < w.Size(); j++) { VWt(i, j) += v(i) * w(j); } }
}
void AddMult_a_VWt(const double a, const Vector &v, const Vector &w, DenseMatrix &VWt)
{
   for (int i = 0; i < v.Size(); i++) { for (int j = 0; j < w.Size(); j++) { VWt(i, j) += a * v(i) * w(j); } }
}
void MultVVt(const Vector &v, DenseMatrix &VVt) { for (int i = 0; i < v.Size(); i++) { for (int j = 0; j < v.Size(); j++) { VVt(i, j) = v(i) * v(j); } } }
void AddMultVVt(const Vector &v, DenseMatrix &VVt)
{
   for (int i = 0; i < v.Size(); i++) { for (int j = 0; j < v.Size(); j++) { VVt(i, j) += v(i) * v(j); } }
}
void AddMult_a_VVt(const double a, const Vector &v, DenseMatrix &VVt)
{
   for (int i = 0; i < v.Size(); i++) { for (int j = 0; j < v.Size(); j++) { VVt(i, j) += a * v(i) * v(j); } }
}
void CalcOrtho(const DenseMatrix &J, Vector &n)
{
   const double *d = J.Data();
   if (J.Height() == 2 && J.Width() == 1) { n(0) = d[1]; n(1) = -d[0]; }
   else if (J.Height() == 3 && J.Width() == 2)
   {
      n(0) = d[1] * d[5] - d[2] * d[4]; n(1) = d[2] * d[3] - d[0] * d[5]; n(2) = d[0] * d[4] - d[1] * d[3];
   }
   else { mfem_error("no contract"); }
}
void CalcAdjugate(const DenseMatrix &a, DenseMatrix &adja)
{
   if (a.Height() > a.Width())   // adj(A^t A) A^t
   {
      const double *d = a.Data();
      if (a.Width() == 1) { for (int i = 0; i < a.Height(); i++) { adja(0, i) = d[i]; } }
      else
      {
         double e = 0.0, f = 0.0, g = 0.0;
         for (int i = 0; i < 3; i++) { e += d[i] * d[i]; f += d[i] * d[3 + i]; g += d[3 + i] * d[3 + i]; }
         for (int i = 0; i < 3; i++) { adja(0, i) = d[i] * g - d[3 + i] * f; adja(1, i) = d[3 + i] * e - d[i] * f; }
      }
   }
   else if (a.Width() == 1) { adja(0, 0) = 1.0; }
   else if (a.Width() == 2) { adja(0, 0) = a(1, 1); adja(0, 1) = -a(0, 1); adja(1, 0) = -a(1, 0); adja(1, 1) = a(0, 0); }
   else if (a.Width() == 3)
   {
      adja(0, 0) = a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1); adja(0, 1) = a(0, 2) * a(2, 1) - a(0, 1) * a(2, 2); adja(0, 2) = a(0, 1) * a(1, 2) - a(0, 2) * a(1, 1);
      adja(1, 0) = a(1, 2) * a(2, 0) - a(1, 0) * a(2, 2); adja(1, 1) = a(0, 0) * a(2, 2) - a(0, 2) * a(2, 0); adja(1, 2) = a(0, 2) * a(1, 0) - a(0, 0) * a(1, 2);
      adja(2, 0) = a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0); adja(2, 1) = a(0, 1) * a(2, 0) - a(0, 0) * a(2, 1); adja(2, 2) = a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0);
   }
   else { mfem_error("no contract"); }
}
void CalcInverse(const DenseMatrix &a, DenseMatrix &inva)
{
   CalcAdjugate(a, inva);
   inva *= 1.0 / (a.Height() == a.Width() ? a.Det() : a.Weight() * a.Weight());
}
void CalcAdjugateTranspose(const DenseMatrix &a, DenseMatrix &adjat)
{
   DenseMatrix t(a.Width(), a.Height());
   CalcAdjugate(a, t);
   for (int i = 0; i < t.Height(); i++) { for (int j = 0; j < t.Width(); j++) { adjat(j, i) = t(i, j); } }
}
// ---------------------------------------------------- BlockVector
BlockVector::BlockVector(const Array<int> &bOffsets) : Vector(bOffsets.Last()), numBlocks(bOffsets.Size() - 1), blockOffsets(bOffsets.GetData()), blocks(new Vector[numBlocks])
{
   for (int i = 0; i < numBlocks; i++) { blocks[i].MakeRef(*this, blockOffsets[i], blockOffsets[i + 1] - blockOffsets[i]); }
}
BlockVector::~BlockVector() { delete[] blocks; }
BlockVector::BlockVector() : Vector(), numBlocks(0), blockOffsets(NULL), blocks(NULL) { }
void BlockVector::Update(Vector &d, const Array<int> &bOffsets)
{
   MakeRef(d, 0, bOffsets.Last());
   blockOffsets = bOffsets.GetData();
   if (numBlocks != bOffsets.Size() - 1) { delete[] blocks; numBlocks = bOffsets.Size() - 1; blocks = new Vector[numBlocks]; }
   for (int i = 0; i < numBlocks; i++) { blocks[i].MakeRef(*this, blockOffsets[i], blockOffsets[i + 1] - blockOffsets[i]); }
}
// ---------------------------------------------------- BlockOperator
BlockOperator::BlockOperator(const Array<int> &o) : Operator(o.Last()), owns_blocks(0), nRowBlocks(o.Size() - 1), nColBlocks(o.Size() - 1), row_offsets(0), col_offsets(0), op(nRowBlocks, nRowBlocks), coef(nRowBlocks, nColBlocks)
{
   for (int i = 0; i < nRowBlocks; i++) { for (int j = 0; j < nColBlocks; j++) { op(i, j) = static_cast<Operator *>(NULL); } }
   row_offsets.MakeRef(o); col_offsets.MakeRef(o);
}
void BlockOperator::SetDiagonalBlock(int i, Operator *o, double c) { SetBlock(i, i, o, c); }
void BlockOperator::SetBlock(int i, int j, Operator *o, double c) { op(i, j) = o; coef(i, j) = c; }
void BlockOperator::Mult(const Vector &x, Vector &y) const
{
   y = 0.0;
   for (int i = 0; i < nRowBlocks; i++)
   {
      for (int j = 0; j < nColBlocks; j++)
      {
         if (!op(i, j)) { continue; }
         const int nr = row_offsets[i + 1] - row_offsets[i], nc = col_offsets[j + 1] - col_offsets[j];
         Vector xb(nc), yb(nr);
         for (int k = 0; k < nc; k++) { xb(k) = x(col_offsets[j] + k); }
         op(i, j)->Mult(xb, yb);
         for (int k = 0; k < nr; k++) { y(row_offsets[i] + k) += coef(i, j) * yb(k); }
      }
   }
}
void BlockOperator::MultTranspose(const Vector &, Vector &) const { mfem_error("no contract"); }
BlockOperator::~BlockOperator() { }
// ---------------------------------------------------- linear solvers
void CGSolver::UpdateVectors() { }
void CGSolver::Mult(const Vector &, Vector &) const { mfem_error("no contract"); }
void GMRESSolver::Mult(const Vector &, Vector &) const { mfem_error("no contract"); }
void FGMRESSolver::Mult(const Vector &, Vector &) const { mfem_error("no contract"); }
void MINRESSolver::SetOperator(const Operator &op) { IterativeSolver::SetOperator(op); }
void MINRESSolver::Mult(const Vector &, Vector &) const { mfem_error("no contract"); }
void NewtonSolver::SetAdaptiveLinRtol(const int type, const double rtol0, const double rtol_max, const double alpha_, const double gamma_)
{
   lin_rtol_type = type; lin_rtol0 = rtol0; lin_rtol_max = rtol_max; this->alpha = alpha_; this->gamma = gamma_;
}
}  // namespace mfem
// one-process communicators: a reduction returns the local value
extern "C" int MPI_Allreduce(const void *in, void *out, int n, MPI_Datatype t, MPI_Op, MPI_Comm)
{
   if (t == MPI_DOUBLE) { for (int i = 0; i < n; i++) { ((double *)out)[i] = ((const double *)in)[i]; } return 0; }
   if (t == MPI_INT) { for (int i = 0; i < n; i++) { ((int *)out)[i] = ((const int *)in)[i]; } return 0; }
   mfem::mfem_error("no contract");
   return 1;
}
#endif
#endif
