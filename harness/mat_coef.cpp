// VP-ODL
// VP-DEFS -Doverride=
// VP-OPT abort_ok = ^h_again
// Coefficients of src/common/coefficient.cpp: coefficients that depend on the mesh
// attribute (of no, one, two and three states, scalar and vector), products, weighted
// mixtures, continuation, and the material data read from the options.
#include "std_model.hpp"
#include "mfem_iso_model.hpp"
#include <list>
#include <iostream>
#include "mfem_iso_priv.hpp"
#include "coefficient.hpp"
#include "coefficient.cpp"
#include "miso_input.cpp"
#define VP_COEFFICIENT_CPP
#include "iso_fixture.hpp"
#include "face_fixture.hpp"
// (key functions: their definitions emit the classes' virtual tables)
namespace mfem { void Coefficient::Project(QuadratureFunction &) { abort(); } void ConstantCoefficient::Project(QuadratureFunction &) { abort(); } }
// (the harness is not vacuous: its end is reached)
#define VP_CASE(name) static void name##_case(); VP_HARNESS(name) { name##_case(); vp_reach("end"); } static void name##_case()
using nlohmann::json;
static const char *PICK = "a mesh-dependent coefficient is the coefficient of the attribute";
static const char *PICKD = "the derivative is the derivative of the coefficient of the attribute";
static const char *PICKX = "the reverse derivative is that of the coefficient of the attribute";
static IntegrationPoint g_ip;
struct At : mfem::IsoparametricTransformation { At(int a) { Attribute = a; ElementNo = 0; } };
// every method of a mock is a different arbitrary function, so a call that reaches the wrong one shows
static double fun(const char *n, int k, int m, const double *s)
{
   double a[8]; a[0] = k; for (int i = 0; i < m; ++i) { a[1 + i] = s[i]; }
   return vp_fn(n, m + 1, a);
}
static void bar(const char *n, double b, int m, const double *s, DenseMatrix &P) { P(0, 0) += b * fun(n, 99, m, s); }
struct Plain : mfem::Coefficient
{
   const char *n; Plain(const char *x) : n(x) { }
   double Eval(mfem::ElementTransformation &, const IntegrationPoint &) override { return fun(n, 0, 0, nullptr); }
   void EvalRevDiff(const double b, mfem::ElementTransformation &, const IntegrationPoint &, DenseMatrix &P) override { bar(n, b, 0, nullptr, P); }
};
struct One : miso::StateCoefficient
{
   const char *n; double in = 0.0; One(const char *x) : n(x) { }
   using miso::StateCoefficient::Eval; using miso::StateCoefficient::EvalRevDiff;
   double Eval(mfem::ElementTransformation &, const IntegrationPoint &, double s) override { return fun(n, 1, 1, &s); }
   double EvalStateDeriv(mfem::ElementTransformation &, const IntegrationPoint &, double s) override { return fun(n, 2, 1, &s); }
   double EvalState2ndDeriv(mfem::ElementTransformation &, const IntegrationPoint &, const double s) override { return fun(n, 3, 1, &s); }
   void EvalRevDiff(double b, mfem::ElementTransformation &, const IntegrationPoint &, double s, DenseMatrix &P) override { bar(n, b, 1, &s, P); }
   void setInputs(const miso::MISOInputs &inputs) override { miso::setValueFromInputs(inputs, n, in); }
};
#define P2 mfem::ElementTransformation &, const IntegrationPoint &, double a, double b
struct Two : miso::TwoStateCoefficient
{
   const char *n; Two(const char *x) : n(x) { }
   using miso::TwoStateCoefficient::Eval;
   double f(int k, double a, double b) { double s[2] = { a, b }; return fun(n, k, 2, s); }
   double Eval(P2) override { return f(0, a, b); }
   double EvalDerivS1(P2) override { return f(1, a, b); }
   double EvalDerivS2(P2) override { return f(2, a, b); }
   double Eval2ndDerivS1(P2) override { return f(3, a, b); }
   double Eval2ndDerivS2(P2) override { return f(4, a, b); }
   double Eval2ndDerivS1S2(P2) override { return f(5, a, b); }
   double Eval2ndDerivS2S1(P2) override { return f(6, a, b); }
   void EvalRevDiff(const double q, mfem::ElementTransformation &, const IntegrationPoint &, DenseMatrix &P) override { bar(n, q, 0, nullptr, P); }
};
#define P3 mfem::ElementTransformation &, const IntegrationPoint &, double a, double b, double c
struct Three : miso::ThreeStateCoefficient
{
   const char *n; Three(const char *x) : n(x) { }
   using miso::ThreeStateCoefficient::Eval;
   double f(int k, double a, double b, double c) { double s[3] = { a, b, c }; return fun(n, k, 3, s); }
   double Eval(P3) override { return f(0, a, b, c); }
   double EvalDerivS1(P3) override { return f(1, a, b, c); }
   double EvalDerivS2(P3) override { return f(2, a, b, c); }
   double EvalDerivS3(P3) override { return f(3, a, b, c); }
   double Eval2ndDerivS1(P3) override { return f(4, a, b, c); }
   double Eval2ndDerivS2(P3) override { return f(5, a, b, c); }
   double Eval2ndDerivS3(P3) override { return f(6, a, b, c); }
   double Eval2ndDerivS1S2(P3) override { return f(7, a, b, c); }
   double Eval2ndDerivS1S3(P3) override { return f(8, a, b, c); }
   double Eval2ndDerivS2S3(P3) override { return f(9, a, b, c); }
   double Eval2ndDerivS2S1(P3) override { return f(10, a, b, c); }
   double Eval2ndDerivS3S1(P3) override { return f(11, a, b, c); }
   double Eval2ndDerivS3S2(P3) override { return f(12, a, b, c); }
   void EvalRevDiff(const double q, mfem::ElementTransformation &, const IntegrationPoint &, DenseMatrix &P) override { bar(n, q, 0, nullptr, P); }
};
// the coefficient of an attribute: 4 depends on the state, 7 does not, 9 is not in the map
enum { STATE, PLAIN, NONE };
struct Who { int kind; const char *n; };
static Who who(int attr, int dflt) { if (attr == 4) { return { STATE, "cs" }; } if (attr == 7) { return { PLAIN, "cp" }; } if (dflt == STATE) { return { STATE, "ds" }; } if (dflt == PLAIN) { return { PLAIN, "dp" }; } return { NONE, "" }; }
static int attribute() { int a = vp_choice("attr", 0, 2); return a == 0 ? 4 : a == 1 ? 7 : 9; }
template <class S> static std::unique_ptr<mfem::Coefficient> dfl(int d) { if (d == STATE) { return std::make_unique<S>("ds"); } if (d == PLAIN) { return std::make_unique<Plain>("dp"); } return nullptr; }
// P(0,0) after a reverse derivative is added to it
template <class F> static double added(F f) { DenseMatrix P(1, 1); P(0, 0) = 5.0; f(P); return P(0, 0) - 5.0; }
VP_CASE(h_one)
{
   int d = vp_choice("default", 0, 2), at = attribute();
   miso::MeshDependentCoefficient m(dfl<One>(d));
   m.addCoefficient(4, std::make_unique<One>("cs")); m.addCoefficient(7, std::make_unique<Plain>("cp"));
   At t(at); Who w = who(at, d);
   double s = vp_real("s", 0, -1, 1), q = vp_real("q", 0, -1, 1), z = 0.0;
   vp_eq(PICK, m.Eval(t, g_ip, s), w.kind == STATE ? fun(w.n, 1, 1, &s) : w.kind == PLAIN ? fun(w.n, 0, 0, nullptr) : 0.0);
   vp_eq(PICK, m.Eval(t, g_ip), w.kind == STATE ? fun(w.n, 1, 1, &z) : w.kind == PLAIN ? fun(w.n, 0, 0, nullptr) : 0.0);
   vp_eq(PICKD, m.EvalStateDeriv(t, g_ip, s), w.kind == STATE ? fun(w.n, 2, 1, &s) : 0.0);
   vp_eq(PICKD, m.EvalState2ndDeriv(t, g_ip, s), w.kind == STATE ? fun(w.n, 3, 1, &s) : 0.0);
   vp_eq(PICKX, added([&](DenseMatrix &P) { m.EvalRevDiff(q, t, g_ip, s, P); }), w.kind == NONE ? 0.0 : q * fun(w.n, 99, w.kind == STATE ? 1 : 0, &s));
   vp_eq(PICKX, added([&](DenseMatrix &P) { m.EvalRevDiff(q, t, g_ip, P); }), w.kind == NONE ? 0.0 : q * fun(w.n, 99, w.kind == STATE ? 1 : 0, &z));
}
// inputs reach the coefficients of every attribute and the default one
VP_CASE(h_one_inputs)
{
   int d = vp_choice("default", 0, 2);
   double v[3] = { vp_real("v", 0, 1, 2), vp_real("v", 1, 1, 2), vp_real("v", 2, 1, 2) };
   auto a = std::make_unique<One>("cs"), b = std::make_unique<One>("ct");
   One *pa = a.get(), *pb = b.get(), *pd = nullptr;
   std::unique_ptr<mfem::Coefficient> df = dfl<One>(d);
   if (d == STATE) { pd = static_cast<One *>(df.get()); }
   miso::MeshDependentCoefficient m(std::move(df));
   m.addCoefficient(4, std::move(a)); m.addCoefficient(7, std::make_unique<Plain>("cp")); m.addCoefficient(2, std::move(b));
   miso::MISOInputs in; in["cs"] = v[0]; in["ct"] = v[1]; in["ds"] = v[2]; in["dp"] = 1.0; in["cp"] = 1.0;
   m.setInputs(in);
   vp_eq("a named input reaches the coefficient of its attribute", pa->in, v[0]);
   vp_eq("a named input reaches the coefficient of its attribute", pb->in, v[1]);
   if (pd) { vp_eq("a named input reaches the default coefficient", pd->in, v[2]); }
   miso::MISOInputs none; none["other"] = 9.0;
   m.setInputs(none);
   vp_eq("an input that is not given keeps its value", pa->in, v[0]); vp_eq("an input that is not given keeps its value", pb->in, v[1]);
   if (pd) { vp_eq("an input that is not given keeps its value", pd->in, v[2]); }
}
// a second coefficient for an attribute is refused, not silently dropped
template <class M> static void again()
{
   M m; m.addCoefficient(4, std::make_unique<Plain>("a"));
   At t(4); vp_eq(PICK, m.Eval(t, g_ip), fun("a", 0, 0, nullptr));
   vp_reach("second");
   m.addCoefficient(4, std::make_unique<Plain>("b"));
   vp_true("a second coefficient for the same attribute is refused", false);
}
VP_HARNESS(h_again_one) { again<miso::MeshDependentCoefficient>(); }
VP_HARNESS(h_again_two) { again<miso::MeshDependentTwoStateCoefficient>(); }
VP_HARNESS(h_again_three) { again<miso::MeshDependentThreeStateCoefficient>(); }
template <class M> static double two(M &c, int k, mfem::ElementTransformation &t, double a, double b)
{
   switch (k)
   {
      case 0: return c.Eval(t, g_ip, a, b);
      case 1: return c.EvalDerivS1(t, g_ip, a, b);
      case 2: return c.EvalDerivS2(t, g_ip, a, b);
      case 3: return c.Eval2ndDerivS1(t, g_ip, a, b);
      case 4: return c.Eval2ndDerivS2(t, g_ip, a, b);
      case 5: return c.Eval2ndDerivS1S2(t, g_ip, a, b);
      default: return c.Eval2ndDerivS2S1(t, g_ip, a, b);
   }
}
VP_CASE(h_two)
{
   int d = vp_choice("default", 0, 2), at = attribute();
   miso::MeshDependentTwoStateCoefficient m(dfl<Two>(d));
   m.addCoefficient(4, std::make_unique<Two>("cs")); m.addCoefficient(7, std::make_unique<Plain>("cp"));
   At t(at); Who w = who(at, d);
   double s[2] = { vp_real("s", 0, -1, 1), vp_real("s", 1, -1, 1) }, q = vp_real("q", 0, -1, 1), z[2] = { 0.0, 0.0 };
   for (int k = 0; k < 7; ++k) { vp_eq(k ? PICKD : PICK, two(m, k, t, s[0], s[1]), w.kind == STATE ? fun(w.n, k, 2, s) : w.kind == PLAIN && k == 0 ? fun(w.n, 0, 0, nullptr) : 0.0); }
   vp_eq(PICK, m.Eval(t, g_ip), w.kind == STATE ? fun(w.n, 0, 2, z) : w.kind == PLAIN ? fun(w.n, 0, 0, nullptr) : 0.0);
   vp_eq(PICKX, added([&](DenseMatrix &P) { m.EvalRevDiff(q, t, g_ip, P); }), w.kind == NONE ? 0.0 : q * fun(w.n, 99, 0, nullptr));
}
template <class M> static double three(M &c, int k, mfem::ElementTransformation &t, const double *s)
{
   switch (k)
   {
      case 0: return c.Eval(t, g_ip, s[0], s[1], s[2]);
      case 1: return c.EvalDerivS1(t, g_ip, s[0], s[1], s[2]);
      case 2: return c.EvalDerivS2(t, g_ip, s[0], s[1], s[2]);
      case 3: return c.EvalDerivS3(t, g_ip, s[0], s[1], s[2]);
      case 4: return c.Eval2ndDerivS1(t, g_ip, s[0], s[1], s[2]);
      case 5: return c.Eval2ndDerivS2(t, g_ip, s[0], s[1], s[2]);
      case 6: return c.Eval2ndDerivS3(t, g_ip, s[0], s[1], s[2]);
      case 7: return c.Eval2ndDerivS1S2(t, g_ip, s[0], s[1], s[2]);
      case 8: return c.Eval2ndDerivS1S3(t, g_ip, s[0], s[1], s[2]);
      case 9: return c.Eval2ndDerivS2S3(t, g_ip, s[0], s[1], s[2]);
      case 10: return c.Eval2ndDerivS2S1(t, g_ip, s[0], s[1], s[2]);
      case 11: return c.Eval2ndDerivS3S1(t, g_ip, s[0], s[1], s[2]);
      default: return c.Eval2ndDerivS3S2(t, g_ip, s[0], s[1], s[2]);
   }
}
VP_CASE(h_three)
{
   int d = vp_choice("default", 0, 2), at = attribute();
   miso::MeshDependentThreeStateCoefficient m(dfl<Three>(d));
   m.addCoefficient(4, std::make_unique<Three>("cs")); m.addCoefficient(7, std::make_unique<Plain>("cp"));
   At t(at); Who w = who(at, d);
   double s[3] = { vp_real("s", 0, -1, 1), vp_real("s", 1, -1, 1), vp_real("s", 2, -1, 1) }, q = vp_real("q", 0, -1, 1), z[3] = { 0.0, 0.0, 0.0 };
   for (int k = 0; k < 13; ++k) { vp_eq(k ? PICKD : PICK, three(m, k, t, s), w.kind == STATE ? fun(w.n, k, 3, s) : w.kind == PLAIN && k == 0 ? fun(w.n, 0, 0, nullptr) : 0.0); }
   vp_eq(PICK, m.Eval(t, g_ip), w.kind == STATE ? fun(w.n, 0, 3, z) : w.kind == PLAIN ? fun(w.n, 0, 0, nullptr) : 0.0);
   vp_eq(PICKX, added([&](DenseMatrix &P) { m.EvalRevDiff(q, t, g_ip, P); }), w.kind == NONE ? 0.0 : q * fun(w.n, 99, 0, nullptr));
}
// ------------------------------------------------------------------ vector coefficients
struct PlainV : mfem::VectorCoefficient
{
   const char *n; PlainV(const char *x) : mfem::VectorCoefficient(2), n(x) { }
   using mfem::VectorCoefficient::Eval;
   void Eval(Vector &v, mfem::ElementTransformation &, const IntegrationPoint &) override { v.SetSize(2); for (int k = 0; k < 2; ++k) { v(k) = fun(n, k, 0, nullptr); } }
   void EvalRevDiff(const Vector &b, mfem::ElementTransformation &, const IntegrationPoint &, DenseMatrix &P) override { bar(n, b(0) + 3.0 * b(1), 0, nullptr, P); }
};
struct StateV : miso::VectorStateCoefficient
{
   const char *n; StateV(const char *x) : miso::VectorStateCoefficient(2), n(x) { }
   using miso::VectorStateCoefficient::Eval; using miso::VectorStateCoefficient::EvalRevDiff;
   void Eval(Vector &v, mfem::ElementTransformation &, const IntegrationPoint &, double s) override { v.SetSize(2); for (int k = 0; k < 2; ++k) { v(k) = fun(n, k, 1, &s); } }
   void EvalStateDeriv(Vector &v, mfem::ElementTransformation &, const IntegrationPoint &, double s) override { v.SetSize(2); for (int k = 0; k < 2; ++k) { v(k) = fun(n, 10 + k, 1, &s); } }
   void EvalRevDiff(const Vector &b, mfem::ElementTransformation &, const IntegrationPoint &, double s, DenseMatrix &P) override { bar(n, b(0) + 3.0 * b(1), 1, &s, P); }
};
static Vector stale() { Vector v(2); v(0) = 7.0; v(1) = 8.0; return v; }
VP_CASE(h_vector)
{
   int d = vp_choice("default", 1, 2), at = attribute();
   miso::VectorMeshDependentCoefficient m(2, d == PLAIN ? std::make_unique<PlainV>("dp") : nullptr);
   m.addCoefficient(4, std::make_unique<PlainV>("cs")); m.addCoefficient(7, std::make_unique<PlainV>("cp"));
   At t(at); Who w = who(at, d);
   Vector v = stale(), b(2); b(0) = vp_real("b", 0, -1, 1); b(1) = vp_real("b", 1, -1, 1);
   m.Eval(v, t, g_ip);
   for (int k = 0; k < 2; ++k) { vp_eq(PICK, v(k), w.kind == NONE ? 0.0 : fun(w.n, k, 0, nullptr)); }
   vp_eq(PICKX, added([&](DenseMatrix &P) { m.EvalRevDiff(b, t, g_ip, P); }), w.kind == NONE ? 0.0 : (b(0) + 3.0 * b(1)) * fun(w.n, 99, 0, nullptr));
}
VP_CASE(h_vector_state)
{
   int d = vp_bool("default") ? STATE : NONE, at = attribute();
   miso::VectorMeshDependentStateCoefficient m(2, d == STATE ? std::make_unique<StateV>("ds") : nullptr);
   m.addCoefficient(4, std::make_unique<StateV>("cs")); m.addCoefficient(7, std::make_unique<PlainV>("cp"));
   At t(at); Who w = who(at, d);
   double s = vp_real("s", 0, -1, 1), z = 0.0;
   Vector v = stale(), u = stale(), g = stale(), b(2); b(0) = vp_real("b", 0, -1, 1); b(1) = vp_real("b", 1, -1, 1);
   m.Eval(v, t, g_ip, s); m.Eval(u, t, g_ip); m.EvalStateDeriv(g, t, g_ip, s);
   const int na = w.kind == STATE ? 1 : 0;
   for (int k = 0; k < 2; ++k)
   {
      vp_eq(PICK, v(k), w.kind == NONE ? 0.0 : fun(w.n, k, na, &s));
      vp_eq(PICK, u(k), w.kind == NONE ? 0.0 : fun(w.n, k, na, &z));
      vp_eq(PICKD, g(k), w.kind == STATE ? fun(w.n, 10 + k, 1, &s) : 0.0);
   }
   vp_eq(PICKX, added([&](DenseMatrix &P) { m.EvalRevDiff(b, t, g_ip, s, P); }), w.kind == NONE ? 0.0 : (b(0) + 3.0 * b(1)) * fun(w.n, 99, na, &s));
   const mfem::VectorCoefficient &base = m;
   vp_ieq("the vector has its dimension", const_cast<mfem::VectorCoefficient &>(base).GetVDim(), 2);
}
// ------------------------------------------------------------------ products
// a scalar times a vector, either of which may depend on the state, and both on position
static void product(bool as, bool bs)
{
   Rule r; MeshEl me(2, "mN", nullptr, false); Iso t(me, 2, "X");
   Coef ca("A"); SCoef sa("A"); VCoef cb(VN, 2); SVCoef sb(VN, 2);
   miso::ScalarVectorProductCoefficient p(as ? (mfem::Coefficient &)sa : (mfem::Coefficient &)ca, bs ? (mfem::VectorCoefficient &)sb : (mfem::VectorCoefficient &)cb);
   const IntegrationPoint &ip = r.IntPoint(0);
   double s[1] = { vp_real("s", 0, -1, 1) };
   auto value = [&](double x, int k) { return (as ? sa.at(t, 0, x) : ca.at(t, 0)) * (bs ? sb.at(t, 0, x, k) : cb.at(t, 0, k)); };
   t.SetIntPoint(&ip);
   Vector v, d(2), w; d(0) = d(1) = 3.0;
   p.Eval(v, t, ip, s[0]); p.EvalStateDeriv(d, t, ip, s[0]); p.Eval(w, t, ip);
   vp_ieq("the product has the dimension of the vector", p.GetVDim(), 2); vp_ieq("the product has the dimension of the vector", v.Size(), 2);
   for (int k = 0; k < 2; ++k)
   {
      vp_eq("the product is the scalar times the vector", v(k), value(s[0], k));
      vp_eq("without a state the product is the scalar times the vector", w(k), value(0.0, k));
      vp_eq("the derivative of a product follows the product rule", d(k), vp_d([&](double *x) { return value(x[0], k); }, s, 0));
   }
   Vector b(2); b(0) = vp_real("b", 0, -1, 1); b(1) = vp_real("b", 1, -1, 1);
   double g[16];
   gradient([&](double *x) { t.put(x); t.SetIntPoint(&ip); Vector y; p.Eval(y, t, ip, s[0]); return y(0) * b(0) + y(1) * b(1); }, t.X, t.dofs(), g);
   t.put(t.X); t.SetIntPoint(&ip);
   DenseMatrix P(2, t.n); P = 1.0;
   p.EvalRevDiff(b, t, ip, s[0], P);
   for (int i = 0; i < t.dofs(); ++i) { vp_eq("the reverse derivative adds the derivative in the node coordinates", P(i / t.n, i % t.n) - 1.0, g[i]); }
}
VP_CASE(h_product_00) { product(false, false); }
VP_CASE(h_product_10) { product(true, false); }
VP_CASE(h_product_01) { product(false, true); }
VP_CASE(h_product_11) { product(true, true); }
// ------------------------------------------------------------------ mixtures
template <class C> static double mix(C &c, double w) { miso::MISOInputs in; in["fill"] = w; c.setInputs(in); At t(1); return c.Eval(t, g_ip); }
template <class H, class DH> static void mixture(const char *lo, const char *hi, const char *bl)
{
   double a = vp_real("a", 0, 1, 3), b = vp_real("b", 0, 1, 3), x[2] = { vp_real("w", 0, 0.1, 0.9), vp_real("w", 1, 0.1, 0.9) };
   vp_assume(a > 0.1); vp_assume(b > 0.1); vp_assume(x[0] >= 0.0); vp_assume(x[0] <= 1.0); vp_assume(x[1] >= 0.0); vp_assume(x[1] <= 1.0); vp_assume(x[0] <= x[1]);
   H h(a, b, "fill"), hr(b, a, "fill"); DH dh(a, b, "fill");
   const double mx = a > b ? a : b, mn = a > b ? b : a, v = mix(h, x[0]);
   vp_eq("a mixture does not depend on the order of its materials", mix(hr, x[0]), v);
   vp_eq(lo, mix(h, 0.0), mn); vp_eq(hi, mix(h, 1.0), mx);
   vp_le(bl, mn, mix(h, x[0])); vp_le(bl, mix(h, x[0]), mx);
   vp_le("a mixture grows with the fraction of the larger material", mix(h, x[0]), mix(h, x[1]));
   vp_eq("the derivative material is the derivative in the fraction", mix(dh, x[0]), vp_d([&](double *y) { return mix(h, y[0]); }, x, 0));
   At t(1); double s = vp_real("s", 0, -1, 1);
   mix(h, x[0]); mix(dh, x[0]);
   vp_eq("a mixture does not depend on the state", h.Eval(t, g_ip, s), v);
   vp_eq("a mixture does not depend on the state", h.EvalStateDeriv(t, g_ip, s), 0.0);
   vp_eq("a mixture does not depend on the state", h.EvalState2ndDeriv(t, g_ip, s), 0.0);
   vp_eq("a mixture does not depend on the state", dh.Eval(t, g_ip, s), dh.Eval(t, g_ip));
   vp_eq("a mixture does not depend on the state", dh.EvalStateDeriv(t, g_ip, s), 0.0);
   miso::MISOInputs none; none["other"] = 0.25; h.setInputs(none);
   vp_eq("an input that is not given keeps its value", h.Eval(t, g_ip), v);
}
static const char *LO = "without the larger material the mixture is the smaller", *HI = "with only the larger material the mixture is the larger", *BW = "a mixture lies between its materials";
VP_CASE(h_hashin) { mixture<miso::HashinShtrikmanWeightedCoefficient, miso::dHashinShtrikmanWeightedCoefficient>(LO, HI, BW); }
VP_CASE(h_average) { mixture<miso::WeightedAverageCoefficient, miso::dWeightedAverageCoefficient>(LO, HI, BW); }
VP_CASE(h_continuation)
{
   double s = vp_real("s", 0, -1, 1), l = vp_real("l", 0, 0, 1), z = 0.0;
   miso::ParameterContinuationCoefficient c(std::make_unique<Plain>("lin"), std::make_unique<One>("non"));
   miso::ParameterContinuationCoefficient::setLambda(l);
   At t(1);
   vp_eq("the continuation parameter is the one that was set", miso::ParameterContinuationCoefficient::getLambda(), l);
   vp_eq("continuation blends the linear and the nonlinear model", c.Eval(t, g_ip, s), (1.0 - l) * fun("lin", 0, 0, nullptr) + l * fun("non", 1, 1, &s));
   vp_eq("the derivative of the blend is the blend of the derivatives", c.EvalStateDeriv(t, g_ip, s), l * fun("non", 2, 1, &s));
   (void)z;
}
static double elemfun(const Vector &x, int e) { double a[3] = { x(0), x(1), (double)e }; return vp_fn("ef", 3, a); }
static double elemtime(const Vector &x, int e, double t) { double a[4] = { x(0), x(1), (double)e, t }; return vp_fn("et", 4, a); }
VP_CASE(h_function)
{
   Rule r; MeshEl me(2, "mN", nullptr, false); Iso t(me, 2, "X", 6);
   const IntegrationPoint &ip = r.IntPoint(1); t.SetIntPoint(&ip);
   miso::ElementFunctionCoefficient f(elemfun), g(elemtime);
   double tm = vp_real("time", 0, 0, 1); g.SetTime(tm);
   double a[4] = { t.x(1, 0), t.x(1, 1), 6.0, tm };
   vp_eq("a function coefficient is its function of the position and the element", f.Eval(t, ip), vp_fn("ef", 3, a));
   vp_eq("a function coefficient is its function of the position, the element and the time", g.Eval(t, ip), vp_fn("et", 4, a));
   miso::LameFirstParameter l1; miso::LameSecondParameter l2;
   vp_assume(t.Weight() > 0.1);
   vp_eq("the first elastic parameter is the inverse of the element measure", l1.Eval(t, ip) * t.det(1), 1.0);
   vp_eq("the second elastic parameter is one", l2.Eval(t, ip), 1.0);
}
// ------------------------------------------------------------------ material data from the options
static json obj() { return json::object(); }
static json components(const json &m, bool listed)
{
   json c = obj(), o = obj();
   if (listed) { c["attrs"] = json::array(); c["attrs"].push_back(2); c["attrs"].push_back(5); } else { c["attr"] = 2; }
   c["material"] = m; o["part"] = c; return o;
}
template <class C> static double at(C &c, int a) { At t(a); return c.Eval(t, g_ip); }
VP_CASE(h_data_number)
{
   bool named = vp_bool("named"), listed = vp_bool("listed");
   double v = vp_real("v", 0, 1, 9);
   json lib = obj(); lib["x"] = obj(); lib["x"]["kappa"] = v; lib["x"]["rho"] = 3.0;
   json m = "x"; if (!named) { m = obj(); m["name"] = "x"; }
   auto c = miso::constructMaterialCoefficient("kappa", components(m, listed), lib);
   vp_eq("a component has the number its material has in the library", at(*c, 2), v);
   vp_eq("a component has the number its material has in the library", at(*c, 5), listed ? v : 0.0);
   vp_eq("attributes without a component evaluate to zero", at(*c, 9), 0.0);
   auto d = miso::constructMaterialCoefficient("sigma", components(m, listed), lib);
   vp_eq("a quantity the material does not have is zero", at(*d, 2), 0.0);
}
template <class F> static void statedata(F make)
{
   bool named = vp_bool("named"), listed = vp_bool("listed"), known = vp_bool("known");
   int k = vp_choice("quantity", 0, 3);
   static const char *q[4] = { "rho", "ks", "alpha", "beta" };
   double v = vp_real("v", 0, 1, 9), df = vp_real("default", 0, 1, 2);
   json lib = obj(), st = obj(), x = obj();
   if (known) { if (k == 0) { x[q[k]] = v; } else { st[q[k]] = v; } }
   x["core_loss"] = obj(); x["core_loss"]["steinmetz"] = st; lib["x"] = x;
   json m = "x"; if (!named) { m = obj(); m["name"] = "x"; }
   auto c = make(q[k], components(m, listed), lib, df);
   vp_eq("a component has the number its material has in the library, or the default", at(*c, 2), known ? v : df);
   vp_eq("a component has the number its material has in the library, or the default", at(*c, 5), !listed ? 0.0 : known ? v : df);
   vp_eq("attributes without a component evaluate to zero", at(*c, 9), 0.0);
}
VP_CASE(h_data_two) { statedata([](const char *n, const json &c, const json &m, double d) { return miso::constructMaterialTwoStateCoefficient(n, c, m, d); }); }
VP_CASE(h_data_three) { statedata([](const char *n, const json &c, const json &m, double d) { return miso::constructMaterialThreeStateCoefficient(n, c, m, d); }); }
// mixtures of two materials of the library
static void dmix(int k)
{
   bool listed = vp_bool("listed");
   static const char *kind[4] = { "Hashin-Shtrikman", "dHashin-Shtrikman", "average", "daverage" };
   double a = vp_real("a", 0, 1, 2), b = vp_real("b", 0, 3, 4), w = vp_real("w", 0, 0.1, 0.9);
   vp_assume(a > 0.1); vp_assume(b > a); vp_assume(w > 0.0); vp_assume(w < 1.0);
   json lib = obj(), mx = obj(); mx["materials"] = json::array(); mx["materials"].push_back("cu"); mx["materials"].push_back("air"); mx["weighted_by"] = "fill"; mx["weight"] = kind[k];
   lib["cu"] = obj(); lib["cu"]["kappa"] = b; lib["air"] = obj(); lib["air"]["kappa"] = a; lib["coil"] = obj(); lib["coil"]["kappa"] = mx;
   auto c = miso::constructMaterialCoefficient("kappa", components(json("coil"), listed), lib);
   const double D = (1.0 - w) * b + (1.0 + w) * a, h = a * ((1.0 + w) * b + (1.0 - w) * a) / D;
   const double want = k == 0 ? h : k == 1 ? 2.0 * a * (b - a) * (a + b) / (D * D) : k == 2 ? w * b + (1.0 - w) * a : b - a;
   miso::MISOInputs in; in["fill"] = w; c->setInputs(in);
   vp_eq("a mixed material mixes the two materials it names by the named input", at(*c, 2), want);
   vp_eq("a mixed material mixes the two materials it names by the named input", at(*c, 5), listed ? want : 0.0);
   vp_eq("attributes without a component evaluate to zero", at(*c, 9), 0.0);
}
VP_CASE(h_data_hs) { dmix(0); }
VP_CASE(h_data_dhs) { dmix(1); }
VP_CASE(h_data_avg) { dmix(2); }
VP_CASE(h_data_davg) { dmix(3); }
VP_CASE(h_data_bad)
{
   json lib = obj(), mx = obj(); mx["materials"] = "cu"; mx["weighted_by"] = "fill"; mx["weight"] = "average";
   lib["coil"] = obj(); lib["coil"]["kappa"] = mx;
   bool thrown = false;
   try { miso::constructMaterialCoefficient("kappa", components(json("coil"), false), lib); } catch (const miso::MISOException &) { thrown = true; }
   vp_true("a mixture that does not list its materials is refused", thrown);
}
