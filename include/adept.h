// Minimal stand-in for Adept (not installed here): scalar reverse-mode AD with
// the part of the API that /repo uses.  ASSUMED CONTRACT of the dependency:
// Stack::jacobian / reverse return the exact derivatives of the recorded code.
#ifndef VP_ADEPT_H
#define VP_ADEPT_H
#include <cmath>
#include <vector>
#include <iostream>
#include <type_traits>
namespace adept
{
typedef double Real;
class adouble;
struct Op { int lhs; int n; int a[2]; double d[2]; };
class Stack
{
public:
   std::vector<Op> tape;
   std::vector<double> grad;
   std::vector<int> indep, dep;
   int next;
   bool recording;
   Stack() : next(0), recording(true) { cur() = this; }
   Stack(bool) : next(0), recording(true) { cur() = this; }
   static Stack *&cur() { static Stack *s = nullptr; return s; }
   void activate() { cur() = this; }
   void deactivate() { if (cur() == this) cur() = nullptr; }
   bool is_active() const { return true; }
   bool pause_recording() { recording = false; return true; }
   bool continue_recording() { recording = true; return true; }
   void new_recording() { tape.clear(); indep.clear(); dep.clear(); grad.clear(); }
   void clear_gradients() { grad.assign(next, 0.0); }
   void clear_independents() { indep.clear(); }
   void clear_dependents() { dep.clear(); }
   void ensure() { while ((int)grad.size() < next) grad.push_back(0.0); }
   int newid() { return next++; }
   void push(int lhs, int n, int a0, double d0, int a1, double d1)
   {
      if (!recording) return;
      Op o; o.lhs = lhs; o.n = n; o.a[0] = a0; o.a[1] = a1; o.d[0] = d0; o.d[1] = d1;
      tape.push_back(o);
   }
   inline void independent(const adouble &x);
   inline void dependent(const adouble &x);
   inline void independent(const adouble *x, int n);
   inline void dependent(const adouble *x, int n);
   void compute_adjoint() { reverse(); }
   void reverse()
   {
      ensure();
      for (int k = (int)tape.size() - 1; k >= 0; --k)
      {
         const Op &o = tape[k];
         double g = grad[o.lhs];
         grad[o.lhs] = 0.0;
         for (int j = 0; j < o.n; ++j) grad[o.a[j]] += g * o.d[j];
      }
   }
   void forward()
   {
      ensure();
      for (int k = 0; k < (int)tape.size(); ++k)
      {
         const Op &o = tape[k];
         double g = 0.0;
         for (int j = 0; j < o.n; ++j) g += grad[o.a[j]] * o.d[j];
         grad[o.lhs] = g;
      }
   }
   // column major: jac[dep + ndep*indep]
   void jacobian(double *jac) { jacobian_reverse(jac); }
   void jacobian_forward(double *jac) { jacobian_reverse(jac); }
   void jacobian_reverse(double *jac)
   {
      for (int i = 0; i < (int)dep.size(); ++i)
      {
         clear_gradients();
         grad[dep[i]] = 1.0;
         reverse();
         for (int j = 0; j < (int)indep.size(); ++j) jac[i + j * (int)dep.size()] = grad[indep[j]];
      }
   }
};
inline Stack *active_stack() { return Stack::cur(); }
class adouble
{
public:
   double v;
   int id;
   static int nid() { return Stack::cur() ? Stack::cur()->newid() : 0; }
   static void rec(int lhs, int n, int a0, double d0, int a1, double d1)
   { if (Stack::cur()) Stack::cur()->push(lhs, n, a0, d0, a1, d1); }
   adouble() : v(0.0), id(nid()) { }
   adouble(double x) : v(x), id(nid()) { rec(id, 0, 0, 0.0, 0, 0.0); }
   adouble(const adouble &o) : v(o.v), id(nid()) { rec(id, 1, o.id, 1.0, 0, 0.0); }
   adouble &operator=(const adouble &o) { v = o.v; rec(id, 1, o.id, 1.0, 0, 0.0); return *this; }
   adouble &operator=(double x) { v = x; rec(id, 0, 0, 0.0, 0, 0.0); return *this; }
   adouble(double x, int n, const adouble &a, double da) : v(x), id(nid()) { rec(id, 1, a.id, da, 0, 0.0); (void)n; }
   adouble(double x, const adouble &a, double da, const adouble &b, double db) : v(x), id(nid()) { rec(id, 2, a.id, da, b.id, db); }
   double value() const { return v; }
   void set_value(double x) { v = x; }
   void set_gradient(double g) { Stack::cur()->ensure(); Stack::cur()->grad[id] = g; }
   double get_gradient() const { Stack::cur()->ensure(); return Stack::cur()->grad[id]; }
   void get_gradient(double &g) const { g = get_gradient(); }
   adouble &operator+=(const adouble &b) { *this = adouble(v + b.v, *this, 1.0, b, 1.0); return *this; }
   adouble &operator-=(const adouble &b) { *this = adouble(v - b.v, *this, 1.0, b, -1.0); return *this; }
   adouble &operator*=(const adouble &b) { *this = adouble(v * b.v, *this, b.v, b, v); return *this; }
   adouble &operator/=(const adouble &b) { *this = adouble(v / b.v, *this, 1.0 / b.v, b, -v / (b.v * b.v)); return *this; }
};
inline adouble operator+(const adouble &a, const adouble &b) { return adouble(a.v + b.v, a, 1.0, b, 1.0); }
inline adouble operator-(const adouble &a, const adouble &b) { return adouble(a.v - b.v, a, 1.0, b, -1.0); }
inline adouble operator*(const adouble &a, const adouble &b) { return adouble(a.v * b.v, a, b.v, b, a.v); }
inline adouble operator/(const adouble &a, const adouble &b) { return adouble(a.v / b.v, a, 1.0 / b.v, b, -a.v / (b.v * b.v)); }
#define VP_MIX(op) \
   template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> inline adouble operator op(const adouble &a, T b) { return a op adouble((double)b); } \
   template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> inline adouble operator op(T a, const adouble &b) { return adouble((double)a) op b; }
VP_MIX(+) VP_MIX(-) VP_MIX(*) VP_MIX(/)
#undef VP_MIX
inline adouble operator-(const adouble &a) { return adouble(-a.v, 1, a, -1.0); }
inline adouble operator+(const adouble &a) { return a; }
#define VP_CMP(op) \
   inline bool operator op(const adouble &a, const adouble &b) { return a.v op b.v; } \
   inline bool operator op(const adouble &a, double b) { return a.v op b; } \
   inline bool operator op(double a, const adouble &b) { return a op b.v; }
VP_CMP(<) VP_CMP(<=) VP_CMP(>) VP_CMP(>=) VP_CMP(==) VP_CMP(!=)
#undef VP_CMP
inline adouble sqrt(const adouble &a) { double r = std::sqrt(a.v); return adouble(r, 1, a, 0.5 / r); }
inline adouble exp(const adouble &a) { double r = std::exp(a.v); return adouble(r, 1, a, r); }
inline adouble log(const adouble &a) { return adouble(std::log(a.v), 1, a, 1.0 / a.v); }
inline adouble sin(const adouble &a) { return adouble(std::sin(a.v), 1, a, std::cos(a.v)); }
inline adouble cos(const adouble &a) { return adouble(std::cos(a.v), 1, a, -std::sin(a.v)); }
inline adouble tan(const adouble &a) { double c = std::cos(a.v); return adouble(std::tan(a.v), 1, a, 1.0 / (c * c)); }
inline adouble atan(const adouble &a) { return adouble(std::atan(a.v), 1, a, 1.0 / (1.0 + a.v * a.v)); }
inline adouble acos(const adouble &a) { return adouble(std::acos(a.v), 1, a, -1.0 / std::sqrt(1.0 - a.v * a.v)); }
inline adouble asin(const adouble &a) { return adouble(std::asin(a.v), 1, a, 1.0 / std::sqrt(1.0 - a.v * a.v)); }
inline adouble tanh(const adouble &a) { double r = std::tanh(a.v); return adouble(r, 1, a, 1.0 - r * r); }
inline adouble fabs(const adouble &a) { if (a.v < 0) return -a; return a; }
inline adouble abs(const adouble &a) { return fabs(a); }
inline adouble pow(const adouble &a, const adouble &b) { double r = std::pow(a.v, b.v); return adouble(r, a, b.v * std::pow(a.v, b.v - 1.0), b, r * std::log(a.v)); }
inline adouble pow(const adouble &a, double b) { return adouble(std::pow(a.v, b), 1, a, b * std::pow(a.v, b - 1.0)); }
inline adouble pow(const adouble &a, int b) { return adouble(std::pow(a.v, b), 1, a, b * std::pow(a.v, b - 1)); }
inline adouble pow(double a, const adouble &b) { double r = std::pow(a, b.v); return adouble(r, 1, b, r * std::log(a)); }
inline adouble round(const adouble &x) { return adouble(std::round(x.v), 1, x, 0.0); }
inline adouble atan2(const adouble &y, const adouble &x)
{ double r2 = x.v * x.v + y.v * y.v; return adouble(std::atan2(y.v, x.v), y, x.v / r2, x, -y.v / r2); }
inline adouble max(const adouble &a, const adouble &b) { if (a.v < b.v) return b; return a; }
inline adouble min(const adouble &a, const adouble &b) { if (b.v < a.v) return b; return a; }
inline bool isfinite(const adouble &a) { return std::isfinite(a.v); }
inline std::ostream &operator<<(std::ostream &os, const adouble &a) { return os << a.v; }
inline double value(const adouble &a) { return a.v; }
inline double value(double a) { return a; }
inline void set_values(adouble *a, int n, const double *x) { for (int i = 0; i < n; ++i) a[i] = x[i]; }
inline void set_gradients(adouble *a, int n, const double *x) { for (int i = 0; i < n; ++i) a[i].set_gradient(x[i]); }
inline void get_gradients(const adouble *a, int n, double *x) { for (int i = 0; i < n; ++i) x[i] = a[i].get_gradient(); }
inline void Stack::independent(const adouble &x) { indep.push_back(x.id); }
inline void Stack::dependent(const adouble &x) { dep.push_back(x.id); }
inline void Stack::independent(const adouble *x, int n) { for (int i = 0; i < n; ++i) indep.push_back(x[i].id); }
inline void Stack::dependent(const adouble *x, int n) { for (int i = 0; i < n; ++i) dep.push_back(x[i].id); }
}  // namespace adept
#endif
