// VP-ODL
// VP-DEFS -Doverride=
// Material models of src/physics/electromagnetics/*_coefficient.cpp: the value of each
// model, its derivatives, and the choice of the model from the options of a component.
#include "std_model.hpp"
#include "mfem_iso_model.hpp"
#include <list>
#include <iostream>
#include "mfem_iso_priv.hpp"
#include "coefficient.hpp"
#include "coefficient.cpp"
#include "miso_input.cpp"
#include "reluctivity_coefficient.cpp"
#include "conductivity_coefficient.cpp"
#include "remnant_flux_coefficient.cpp"
#include "demag_flux_coefficient.cpp"
#include "pm_demag_constraint_coeff.cpp"
#include "cal2_kh_coefficient.cpp"
#include "cal2_ke_coefficient.cpp"
#include "vp_harness.hpp"
#include "vp_diff.hpp"
// (key functions: their definitions emit the classes' virtual tables)
namespace mfem { void Coefficient::Project(QuadratureFunction &) { abort(); } void ConstantCoefficient::Project(QuadratureFunction &) { abort(); } }
// (the harness is not vacuous: its end is reached)
#define VP_CASE(name) static void name##_case(); VP_HARNESS(name) { name##_case(); vp_reach("end"); } static void name##_case()
using nlohmann::json;
using mfem::IntegrationPoint;
static const char *VAL = "the model has its documented value";
static const char *D1 = "the first derivative of the model is the derivative of its value";
static const char *D2 = "the second derivative of the model is the derivative of its first derivative";
static const char *DEF = "attributes without a component have the default value";
static const char *SEL = "a component has the model its options name";
struct At : mfem::IsoparametricTransformation { At(int a) { Attribute = a; ElementNo = 0; } };
static IntegrationPoint g_ip;
static const double MU0 = 4e-7 * M_PI, NU0 = 1 / MU0;
static json obj() { return json::object(); }
// a component of one attribute, or of two listed attributes
static json component(const json &material, bool listed)
{
   json c = obj();
   if (listed) { c["attrs"] = json::array(); c["attrs"].push_back(2); c["attrs"].push_back(5); } else { c["attr"] = 2; }
   c["material"] = material;
   return c;
}
// the options: {"components": {name: component}} or the components themselves
static json options(const json &c, bool wrapped)
{
   json cs = obj(); cs["part"] = c;
   if (!wrapped) { return cs; }
   json o = obj(); o["components"] = cs; return o;
}
// one number of a model, given in the component or in the material library
static void put(json &comp, json &lib, const char *key, double v, bool here) { if (here) { comp[key] = v; lib[key] = v + 1.0; } else { lib[key] = v; } }
static void put(json &comp, json &lib, const char *key, const std::vector<double> &v, bool here)
{
   json a = json::array(), b = json::array();
   for (double x : v) { a.push_back(x); b.push_back(x + 1.0); }
   if (here) { comp[key] = a; lib[key] = b; } else { lib[key] = a; }
}
template <class C> static double val(C &c, double s, int a = 2) { At t(a); return c.Eval(t, g_ip, s); }
template <class C> static double der(C &c, double s, int a = 2) { At t(a); return c.EvalStateDeriv(t, g_ip, s); }
template <class C> static double der2(C &c, double s, int a = 2) { At t(a); return c.EvalState2ndDeriv(t, g_ip, s); }
// the derivatives of a model of one state
template <class C> static void derivs(C &c, double s)
{
   double x[1] = { s };
   vp_eq(D1, der(c, s), vp_d([&](double *p) { return val(c, p[0]); }, x, 0));
   vp_eq(D2, der2(c, s), vp_d([&](double *p) { return der(c, p[0]); }, x, 0));
}
template <class C> static void shared(C &c, double s, bool listed, double dflt)
{
   if (listed) { vp_eq(SEL, val(c, s, 5), val(c, s, 2)); vp_eq(SEL, der(c, s, 5), der(c, s, 2)); vp_eq(SEL, der2(c, s, 5), der2(c, s, 2)); }
   vp_eq(DEF, val(c, s, 9), dflt); vp_eq(DEF, der(c, s, 9), 0.0); vp_eq(DEF, der2(c, s, 9), 0.0);
   At t(9); vp_eq(DEF, c.Eval(t, g_ip), dflt);
}
// ------------------------------------------------------------------ reluctivity
enum { NC = 4, DEG = 2 };
struct Curve
{
   std::vector<double> cps, knots;
   json material, lib;
   Curve(const char *model, bool here)
   {
      for (int i = 0; i < NC; ++i) { cps.push_back(vp_real("cp", i, 1, 3)); }
      // the first knot is zero flux density
      for (int i = 0; i < NC + DEG + 1; ++i) { knots.push_back(i <= DEG ? 0.0 : i < NC ? vp_real("knot", i, 0.5, 1.5) : vp_real("kend", 0, 2, 3)); }
      vp_assume(knots.back() > 1e-3);
      json nu = obj(), m = obj();
      nu["model"] = model;
      put(nu, m, "cps", cps, here); put(nu, m, "knots", knots, here);
      if (here) { nu["degree"] = (int)DEG; } else { m["degree"] = (int)DEG; }
      lib = obj(); lib["steel"] = obj(); lib["steel"]["reluctivity"] = obj(); lib["steel"]["reluctivity"][model] = m;
      material = obj(); material["name"] = "steel"; material["reluctivity"] = nu;
   }
   double spline(const char *n, double t, double scale) const
   {
      double a[32]; int m = 0;
      a[m++] = t;
      for (double c : cps) { a[m++] = c; }
      for (double k : knots) { a[m++] = k / scale; }
      a[m++] = DEG;
      return vp_fn(n, m, a);
   }
};
static void lognu(bool here, bool listed)
{
   Curve cv("lognu", here);
   miso::ReluctivityCoefficient nu(options(component(cv.material, listed), true), cv.lib);
   double b = vp_real("B", 0, 0.2, 1.8); vp_assume(b >= 0.0); vp_assume(b < cv.knots.back());
   vp_eq(VAL, val(nu, b), exp(cv.spline("spline", b, 1.0)));
   derivs(nu, b);
   shared(nu, b, listed, NU0);
}
VP_CASE(h_nu_lognu) { lognu(true, false); }
VP_CASE(h_nu_lognu_lib) { lognu(false, true); }
VP_CASE(h_nu_lognu_sat)
{
   Curve cv("lognu", true);
   miso::ReluctivityCoefficient nu(options(component(cv.material, false), true), cv.lib);
   double b = vp_real("B", 0, 4, 6); vp_assume(b > cv.knots.back());
   vp_eq("beyond the data the reluctivity is that of free space", val(nu, b), NU0);
   vp_eq(D1, der(nu, b), 0.0);
   vp_eq(D2, der2(nu, b), 0.0);
}
static void bh(bool here, bool listed)
{
   Curve cv("bh", here);
   miso::ReluctivityCoefficient nu(options(component(cv.material, listed), true), cv.lib);
   double b = vp_real("B", 0, 0.2, 1.8); vp_assume(b > 1e-14); vp_assume(b < cv.knots.back());
   vp_eq(VAL, val(nu, b) * b, cv.spline("spline", b / cv.knots.back(), cv.knots.back()));
   derivs(nu, b);
   shared(nu, b, listed, NU0);
}
VP_CASE(h_nu_bh) { bh(true, true); }
VP_CASE(h_nu_bh_lib) { bh(false, false); }
VP_CASE(h_nu_bh_zero)
{
   Curve cv("bh", true);
   miso::ReluctivityCoefficient nu(options(component(cv.material, false), true), cv.lib);
   const double bm = cv.knots.back();
   // the limits of H / B and its derivatives, from the Taylor series of H about B = 0 with H(0) = 0
   vp_eq("at zero flux the reluctivity is the slope of the B-H curve", val(nu, 0.0), cv.spline("D0@spline", 0.0, bm) / bm);
   vp_eq("at zero flux the derivative of the reluctivity is half the curvature of the B-H curve", der(nu, 0.0), cv.spline("D0@D0@spline", 0.0, bm) / (2.0 * bm * bm));
   vp_eq("at zero flux the second derivative of the reluctivity is a third of the third derivative of the B-H curve", der2(nu, 0.0), cv.spline("D0@D0@D0@spline", 0.0, bm) / (3.0 * bm * bm * bm));
}
VP_CASE(h_nu_bh_sat)
{
   Curve cv("bh", true);
   miso::ReluctivityCoefficient nu(options(component(cv.material, false), true), cv.lib);
   double b = vp_real("B", 0, 4, 6); vp_assume(b > cv.knots.back());
   vp_eq("beyond the data the B-H curve continues with the slope of free space", val(nu, b) * b, cv.cps.back() + (b - cv.knots.back()) * NU0);
   derivs(nu, b);
}
static json with(const char *key, double v) { json o = obj(); o[key] = v; return o; }
VP_CASE(h_nu_linear)
{
   int form = vp_choice("form", 0, 2);      // material by name, without a model, with the linear model
   bool known = vp_bool("known"), listed = vp_bool("listed");
   double mu = vp_real("mu", 0, 1, 9); vp_assume(mu > 0.5);
   json lib = obj(); lib["air"] = known ? with("mu_r", mu) : obj();
   json m = "air";
   if (form > 0) { m = obj(); m["name"] = "air"; if (form == 2) { m["reluctivity"] = obj(); m["reluctivity"]["model"] = "linear"; } }
   miso::ReluctivityCoefficient nu(options(component(m, listed), true), lib);
   double b = vp_real("B", 0, 0.2, 1.8);
   vp_eq("a linear reluctivity is the inverse of the permeability", val(nu, b), 1.0 / ((known ? mu : 1.0) * MU0));
   vp_eq(D1, der(nu, b), 0.0); vp_eq(D2, der2(nu, b), 0.0);
   shared(nu, b, listed, NU0);
}
template <class F> static bool rejects(F f) { try { f(); } catch (const miso::MISOException &) { return true; } return false; }
VP_CASE(h_unknown_model)
{
   json lib = obj(); lib["x"] = obj();
   json m = obj(); m["name"] = "x"; m["reluctivity"] = obj(); m["reluctivity"]["model"] = "nonsense";
   m["conductivity"] = obj(); m["conductivity"]["model"] = "nonsense";
   json o = options(component(m, false), true);
   vp_true("a model that does not exist is refused", rejects([&]() { miso::ReluctivityCoefficient c(o, lib); }));
   vp_true("a model that does not exist is refused", rejects([&]() { miso::ConductivityCoefficient c(o, lib); }));
}
// ------------------------------------------------------------------ conductivity
static void sigma(bool here, bool listed)
{
   double al = vp_real("alpha", 0, 0.1, 0.5), tr = vp_real("Tref", 0, 1, 2), st = vp_real("sigma", 0, 1, 3), T = vp_real("T", 0, 2, 4);
   vp_assume(1.0 + al * (T - tr) > 0.1);
   json s = obj(), l = obj(); s["model"] = "linear";
   put(s, l, "alpha_resistivity", al, here); put(s, l, "T_ref", tr, here); put(s, l, "sigma_T_ref", st, here);
   json lib = obj(); lib["cu"] = obj(); lib["cu"]["conductivity"] = obj(); lib["cu"]["conductivity"]["linear"] = l;
   json m = obj(); m["name"] = "cu"; m["conductivity"] = s;
   miso::ConductivityCoefficient c(options(component(m, listed), true), lib);
   vp_eq("the resistivity grows linearly with temperature", val(c, T) * (1.0 + al * (T - tr)), st);
   derivs(c, T);
   shared(c, T, listed, 58.14e6);
}
VP_CASE(h_sigma) { sigma(true, false); }
VP_CASE(h_sigma_lib) { sigma(false, true); }
VP_CASE(h_sigma_const)
{
   int form = vp_choice("form", 0, 2);
   bool known = vp_bool("known"), listed = vp_bool("listed");
   double sg = vp_real("sigma", 0, 1, 9);
   json lib = obj(); lib["cu"] = known ? with("sigma", sg) : obj();
   json m = "cu";
   if (form > 0) { m = obj(); m["name"] = "cu"; if (form == 2) { m["conductivity"] = obj(); m["conductivity"]["model"] = "constant"; } }
   miso::ConductivityCoefficient c(options(component(m, listed), true), lib);
   double T = vp_real("T", 0, 2, 4);
   vp_eq("a constant conductivity comes from the material library", val(c, T), known ? sg : 58.14e6);
   vp_eq(D1, der(c, T), 0.0); vp_eq(D2, der2(c, T), 0.0);
   shared(c, T, listed, 58.14e6);
}
// ------------------------------------------------------------------ magnets
VP_CASE(h_remnant)
{
   bool ga = vp_bool("ga"), gt = vp_bool("gt"), gb = vp_bool("gb");
   double al = vp_real("alpha", 0, -1, 1), tr = vp_real("Tref", 0, 1, 2), br = vp_real("br", 0, 1, 2), T = vp_real("T", 0, 2, 4);
   json m = obj();
   if (ga) { m["alpha_B_r"] = al; } else { al = -0.12; }
   if (gt) { m["T_ref"] = tr; } else { tr = 293.15; }
   if (gb) { m["B_r_T_ref"] = br; } else { br = 1.39; }
   miso::RemnantFluxCoefficient c(m);
   int attr = vp_choice("attr", 1, 2);
   vp_eq(VAL, val(c, T, attr), br * (1.0 + al / 100.0 * (T - tr)));
   derivs(c, T);
}
// knee point, remnant flux and coercivity of a magnet
struct Magnet
{
   static const char *key(int i) { static const char *k[9] = { "T0", "alpha_B_r", "B_r_T0", "alpha_H_ci", "H_ci_T0", "alpha_B_knee", "beta_B_knee", "alpha_H_knee", "beta_H_knee" }; return k[i]; }
   double p[9];
   json material, lib;
   Magnet(unsigned here)
   {
      static const double lo[9] = { 1, 1, 1, 1, 1, 0.1, 3, 0.5, 1 };
      json d = obj(), l = obj();
      for (int i = 0; i < 9; ++i) { p[i] = vp_real("mag", i, lo[i], 1.5 * lo[i]); put(d, l, key(i), p[i], (here >> i) & 1); }
      lib = obj(); lib["mag"] = obj(); lib["mag"]["Demag"] = l;
      material = obj(); material["name"] = "mag"; material["Demag"] = d;
   }
   double bk(double T) const { return p[5] * T + p[6]; }
   double hk(double T) const { return p[7] * T + p[8]; }
   double br(double T) const { return p[2] * (1.0 + p[1] / 100.0 * (T - p[0])); }
   double hc(double T) const { return p[4] * (1.0 + p[3] / 100.0 * (T - p[0])); }
};
static void knee(unsigned here, bool listed, bool wrapped)
{
   Magnet g(here);
   miso::DemagFluxCoefficient c(options(component(g.material, listed), wrapped), g.lib);
   double T = vp_real("T", 0, 2, 4);
   vp_eq(VAL, val(c, T), g.bk(T));
   derivs(c, T);
   shared(c, T, listed, 0.0);
}
VP_CASE(h_knee) { knee(0x1ff, false, vp_bool("wrapped")); }
VP_CASE(h_knee_lib) { knee(0, true, vp_bool("wrapped")); }
VP_CASE(h_knee_mixed) { knee(0x055, false, true); }
template <class C> static double two(C &c, int k, double a, double b, int attr = 2)
{
   At t(attr);
   switch (k)
   {
      case 0: return c.Eval(t, g_ip, a, b);
      case 1: return c.EvalDerivS1(t, g_ip, a, b);
      case 2: return c.EvalDerivS2(t, g_ip, a, b);
      case 3: return c.Eval2ndDerivS1(t, g_ip, a, b);
      case 4: return c.Eval2ndDerivS2(t, g_ip, a, b);
      case 5: return c.Eval2ndDerivS1S2(t, g_ip, a, b);
      default: return c.Eval2ndDerivS2S1(t, g_ip, a, b);
   }
}
static void demag(unsigned here, bool listed, bool wrapped)
{
   Magnet g(here);
   miso::PMDemagConstraintCoefficient c(options(component(g.material, listed), wrapped), g.lib);
   double x[2] = { vp_real("B", 0, 1, 2), vp_real("T", 0, 2, 4) };
   const double B = x[0], T = x[1];
   vp_assume(g.bk(T) - g.br(T) > 0.1); vp_assume(g.bk(T) > 0.1);
   vp_eq(VAL, two(c, 0, B, T), (g.hk(T) / (g.bk(T) - g.br(T)) - (g.hk(T) - g.hc(T)) / g.bk(T)) * B - (g.hc(T) + g.br(T) * g.hk(T) / (g.bk(T) - g.br(T))));
   static const int from[7] = { 0, 0, 0, 1, 2, 1, 2 }, in[7] = { 0, 0, 1, 0, 1, 1, 0 };
   for (int k = 1; k < 7; ++k) { vp_eq(k < 3 ? D1 : D2, two(c, k, B, T), vp_d([&](double *p) { return two(c, from[k], p[0], p[1]); }, x, in[k])); }
   for (int k = 0; k < 7; ++k) { vp_eq(DEF, two(c, k, B, T, 9), 0.0); if (listed) { vp_eq(SEL, two(c, k, B, T, 5), two(c, k, B, T)); } }
}
VP_CASE(h_demag) { demag(0x1ff, false, vp_bool("wrapped")); }
VP_CASE(h_demag_lib) { demag(0, true, vp_bool("wrapped")); }
VP_CASE(h_demag_mixed) { demag(0x0aa, false, true); }
// ------------------------------------------------------------------ CAL2 core loss
template <class C> static double three(C &c, int k, const double *s, int attr = 2)
{
   At t(attr);
   switch (k)
   {
      case 0: return c.Eval(t, g_ip, s[0], s[1], s[2]);
      case 1: return c.EvalDerivS1(t, g_ip, s[0], s[1], s[2]);
      case 2: return c.EvalDerivS2(t, g_ip, s[0], s[1], s[2]);
      case 3: return c.EvalDerivS3(t, g_ip, s[0], s[1], s[2]);
      case 4: return c.Eval2ndDerivS1(t, g_ip, s[0], s[1], s[2]);
      case 5: return c.Eval2ndDerivS2(t, g_ip, s[0], s[1], s[2]);
      case 6: return c.Eval2ndDerivS3(t, g_ip, s[0], s[1], s[2]);
      case 7: return c.Eval2ndDerivS1S2(t, g_ip, s[0], s[1], s[2]);
      case 8: return c.Eval2ndDerivS1S3(t, g_ip, s[0], s[1], s[2]);
      case 9: return c.Eval2ndDerivS2S3(t, g_ip, s[0], s[1], s[2]);
      case 10: return c.Eval2ndDerivS2S1(t, g_ip, s[0], s[1], s[2]);
      case 11: return c.Eval2ndDerivS3S1(t, g_ip, s[0], s[1], s[2]);
      default: return c.Eval2ndDerivS3S2(t, g_ip, s[0], s[1], s[2]);
   }
}
static const int FROM3[13] = { 0, 0, 0, 0, 1, 2, 3, 1, 1, 2, 2, 3, 3 }, IN3[13] = { 0, 0, 1, 2, 0, 1, 2, 1, 2, 2, 0, 0, 1 };
enum { NP = 4 };
struct Cal
{
   double T0, T1, a[NP], b[NP];
   json material, lib;
   Cal(const char *k, unsigned here, int n0, int n1)
   {
      T0 = vp_real("T0", 0, 1, 2); T1 = vp_real("T1", 0, 3, 4); vp_assume(T1 - T0 > 0.1);
      std::vector<double> v0, v1;
      for (int i = 0; i < NP; ++i) { a[i] = i < n0 ? vp_real("k0", i, 0.5, 1) : 0.0; b[i] = i < n1 ? vp_real("k1", i, 0.5, 1) : 0.0; }
      for (int i = 0; i < n0; ++i) { v0.push_back(a[i]); }
      for (int i = 0; i < n1; ++i) { v1.push_back(b[i]); }
      json d = obj(), l = obj();
      put(d, l, "T0", T0, here & 1); put(d, l, "T1", T1, here & 2);
      std::string k0 = std::string(k) + "_T0", k1 = std::string(k) + "_T1";
      put(d, l, k0.c_str(), v0, here & 4); put(d, l, k1.c_str(), v1, here & 8);
      lib = obj(); lib["fe"] = obj(); lib["fe"]["core_loss"] = obj(); lib["fe"]["core_loss"]["CAL2"] = l;
      material = obj(); material["name"] = "fe"; material["core_loss"] = d;
   }
   static double poly(const double *c, double B) { double r = 0.0, p = 1.0; for (int i = 0; i < NP; ++i) { r += c[i] * p; p *= B; } return r; }
};
template <class C> static void cal(const char *k, unsigned here, bool listed, bool wrapped, bool zero, int n0 = NP, int n1 = NP)
{
   Cal g(k, here, n0, n1);
   C c(options(component(g.material, listed), wrapped), g.lib);
   double s[3] = { vp_real("T", 0, 1, 4), vp_real("f", 0, 1, 2), zero ? 0.0 : vp_real("B", 0, 0.2, 2) };
   vp_assume(Cal::poly(g.a, s[2]) > 0.1);
   vp_eq("the loss coefficient is linear in temperature between its two fits", three(c, 0, s), Cal::poly(g.a, s[2]) + (s[0] - g.T0) / (g.T1 - g.T0) * (Cal::poly(g.b, s[2]) - Cal::poly(g.a, s[2])));
   if (zero)
   {
      // the derivatives of polynomials at zero are their coefficients
      const double m = (s[0] - g.T0) / (g.T1 - g.T0);
      vp_eq("at zero flux density the derivatives are those of the fits", three(c, 3, s), g.a[1] + m * (g.b[1] - g.a[1]));
      vp_eq("at zero flux density the derivatives are those of the fits", three(c, 6, s), 2.0 * (g.a[2] + m * (g.b[2] - g.a[2])));
      vp_eq("at zero flux density the derivatives are those of the fits", three(c, 8, s), (g.b[1] - g.a[1]) / (g.T1 - g.T0));
      vp_eq("at zero flux density the derivatives are those of the fits", three(c, 11, s), (g.b[1] - g.a[1]) / (g.T1 - g.T0));
      return;
   }
   for (int q = 1; q < 13; ++q) { vp_eq(q < 4 ? D1 : D2, three(c, q, s), vp_d([&](double *p) { return three(c, FROM3[q], p); }, s, IN3[q])); }
   for (int q = 0; q < 13; ++q) { vp_eq(DEF, three(c, q, s, 9), q == 0 ? 1.0 : 0.0); if (listed) { vp_eq(SEL, three(c, q, s, 5), three(c, q, s)); } }
}
VP_CASE(h_kh) { cal<miso::CAL2khCoefficient>("kh", 15, false, vp_bool("wrapped"), false); }
VP_CASE(h_kh_lib) { cal<miso::CAL2khCoefficient>("kh", 0, true, vp_bool("wrapped"), false); }
VP_CASE(h_kh_zero) { cal<miso::CAL2khCoefficient>("kh", 6, false, true, true); }
VP_CASE(h_kh_uneven) { cal<miso::CAL2khCoefficient>("kh", 9, false, true, false, 1, 3); }
VP_CASE(h_ke) { cal<miso::CAL2keCoefficient>("ke", 15, false, vp_bool("wrapped"), false); }
VP_CASE(h_ke_lib) { cal<miso::CAL2keCoefficient>("ke", 0, true, vp_bool("wrapped"), false); }
VP_CASE(h_ke_zero) { cal<miso::CAL2keCoefficient>("ke", 6, false, true, true); }
VP_CASE(h_ke_uneven) { cal<miso::CAL2keCoefficient>("ke", 9, false, true, false, 3, 1); }
// the defaults of a material without a loss or demagnetisation model
VP_CASE(h_defaults)
{
   bool named = vp_bool("named"), known = vp_bool("known"), listed = vp_bool("listed");
   double kh = vp_real("kh", 0, 1, 3), ke = vp_real("ke", 0, 1, 3);
   json lib = obj(); lib["x"] = obj();
   if (known) { lib["x"]["kh"] = kh; lib["x"]["ke"] = ke; }
   json m = "x";
   if (!named) { m = obj(); m["name"] = "x"; }
   json o = options(component(m, listed), vp_bool("wrapped"));
   double s[3] = { vp_real("T", 0, 1, 4), vp_real("f", 0, 1, 2), vp_real("B", 0, 0.2, 2) };
   miso::CAL2khCoefficient ch(o, lib); miso::CAL2keCoefficient ce(o, lib); miso::PMDemagConstraintCoefficient cd(o, lib); miso::DemagFluxCoefficient cb(o, lib);
   vp_eq("a material without a loss model has the constant of the library", three(ch, 0, s), known ? kh : 1.0);
   vp_eq("a material without a loss model has the constant of the library", three(ce, 0, s), known ? ke : 1.0);
   for (int q = 1; q < 13; ++q) { vp_eq(D1, three(ch, q, s), 0.0); vp_eq(D1, three(ce, q, s), 0.0); }
   for (int q = 0; q < 7; ++q) { vp_eq("a material without a demagnetisation model is not constrained", two(cd, q, s[2], s[0]), 0.0); }
   vp_eq("a material without a demagnetisation model has its knee at zero", val(cb, s[0]), 0.0);
}
