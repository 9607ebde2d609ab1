// VP-ODL
// VP-DEFS -Doverride=
// The current density and magnetization sources of the magnetostatic problem.
#include "std_model.hpp"
#include "mfem_iso_model.hpp"
#include <list>
#include <iostream>
#include "mfem_iso_priv.hpp"
#include "mfem_coef_model.hpp"
#include "coefficient.hpp"
#include "coefficient.cpp"
#include "miso_input.cpp"
#include "current_source_functions.cpp"
#include "remnant_flux_coefficient.cpp"
#include "magnetic_source_functions.cpp"
#define VP_COEFFICIENT_CPP
#include "iso_fixture.hpp"
#define VP_CASE(name) static void name##_case(); VP_HARNESS(name) { name##_case(); vp_reach("end"); } static void name##_case()
using nlohmann::json;
static const char *VAL = "the current density is the current of the group times the direction of its source";
static const char *REV = "the reverse derivative is exact in every node coordinate";
static const char *OFF = "elements of no group carry no current";
static const char *CACHE = "the currents come back from the cache";
static const char *UPD = "a changed input is reported";
static const char *MAG = "the magnetization is the remnant flux times the unit direction of the magnet";
static json obj() { return json::object(); }
static json list(int a, int b = 0) { json l = json::array(); l.push_back(a); if (b) { l.push_back(b); } return l; }
// the point of the element is anywhere: its mapping is the reference point moved by the nodes
struct At : Iso { At(El &m, int D, int a) : Iso(m, D, "X") { Attribute = a; } };
static double len2(double x, double y) { return sqrt(x * x + y * y); }
struct Src
{
   MeshEl m; At t; Rule r; int D; IntegrationPoint *ip;
   Src(int dim, int attr) : m(dim), t(m, dim, attr), D(dim) { ip = &r.IntPoint(0); }
   double x(int d) const { return t.x(0, d); }
   double xs(int d, double lo, double hi) { vp_assume(x(d) > lo); vp_assume(x(d) < hi); return x(d); }
};
template <class C> static void value(C &c, Src &s, const double *e, const char *label = VAL)
{
   s.t.SetIntPoint(s.ip);
   Vector v(s.D); c.Eval(v, s.t, *s.ip);   // the caller gives it its size
   vp_ieq("one component per space dimension", v.Size(), s.D);
   for (int k = 0; k < s.D; ++k) { vp_eq(label, v(k), e[k]); }
}
// dP = the derivative of v_bar . c in every node coordinate
template <class E, class R> static void nodes(Src &s, E f, R rev)
{
   const int n = s.t.dofs();
   double g[12];
   gradient([&](double *y) { s.t.put(y); s.t.SetIntPoint(s.ip); return f(); }, s.t.X, n, g);
   s.t.put(s.t.X); s.t.SetIntPoint(s.ip);
   DenseMatrix P(s.D, s.m.GetDof()); P = 0.0; P(0, 0) = 5.0;
   rev(P);
   for (int d = 0; d < s.D; ++d) { for (int j = 0; j < s.m.GetDof(); ++j) { vp_eq(REV, P(d, j) - (d == 0 && j == 0 ? 5.0 : 0.0), g[d * s.m.GetDof() + j]); } }
}
template <class C> static void sens(C &c, Src &s)
{
   double b[3]; Vector vb(b, s.D);
   for (int k = 0; k < s.D; ++k) { b[k] = vp_real("vb", k, -1, 1); }
   nodes(s, [&] { Vector v(s.D); c.Eval(v, s.t, *s.ip); return v * vb; }, [&](DenseMatrix &P) { c.EvalRevDiff(vb, s.t, *s.ip, P); });
}
// one group with one source on two attributes
static json one(const char *source, int a = 3, int b = 6) { json o = obj(), g = obj(); g[source] = list(a, b); o["grp"] = g; return o; }
static double set(miso::CurrentDensityCoefficient &c)
{
   double I = vp_real("I", 0, 0.5, 2); vp_assume(I > 1.5);
   miso::MISOInputs in; in["current_density:grp"] = I;
   vp_true(UPD, setInputs(c, in));
   return I;
}
static void check(const char *source, Src &s, const double *dir)
{
   adept::Stack st;
   miso::CurrentDensityCoefficient c(st, one(source));
   s.t.SetIntPoint(s.ip);
   value(c, s, dir);   // currents are one until they are set
   double I = set(c), e[3];
   for (int k = 0; k < 3; ++k) { e[k] = I * dir[k]; }
   value(c, s, e);
   sens(c, s);
   double z[3] = {0, 0, 0};
   s.t.Attribute = 4; value(c, s, z, OFF); sens(c, s);
}
static int attr() { return vp_choice("attr", 0, 1) ? 6 : 3; }
VP_CASE(h_x) { Src s(3, attr()); double d[3] = {1, 0, 0}; check("x", s, d); }
VP_CASE(h_y) { Src s(3, attr()); double d[3] = {0, 1, 0}; check("y", s, d); }
VP_CASE(h_z) { Src s(3, attr()); double d[3] = {0, 0, 1}; check("z", s, d); }
VP_CASE(h_nz) { Src s(3, attr()); double d[3] = {0, 0, -1}; check("-z", s, d); }
VP_CASE(h_ring)
{
   Src s(3, attr()); double r = len2(s.x(0), s.x(1)); vp_assume(s.x(0) * s.x(0) + s.x(1) * s.x(1) > 0.01);
   double d[3] = {-s.x(1) / r, s.x(0) / r, 0}; check("ring", s, d);
}
VP_CASE(h_box1) { Src s(3, attr()); double d[3] = {0, 0, -6 * (s.x(1) - 0.5)}; check("box1", s, d); }
VP_CASE(h_box2) { Src s(3, attr()); double d[3] = {0, 0, 6 * (s.x(1) - 0.5)}; check("box2", s, d); }
// racetrack coil around the origin: straight along the four sides, circular around the four corners
static void team13(bool xin, bool yin)
{
   Src s(3, attr()); const double a = 0.075; double x = s.x(0), y = s.x(1), d[3] = {0, 0, 0};
   int sx = vp_choice("sx", 0, 1) ? 1 : -1, sy = vp_choice("sy", 0, 1) ? 1 : -1;
   vp_assume(sx * x > (xin ? 1e-3 : a)); vp_assume(sy * y > (yin ? 1e-3 : a));
   if (xin) { vp_assume(sx * x < a); }
   if (yin) { vp_assume(sy * y < a); }
   if (yin) { d[1] = sx; } else if (xin) { d[0] = -sy; }
   else { double u = x - sx * a, v = y - sy * a, r = len2(u, v); d[0] = -v / r; d[1] = u / r; }
   check("team13", s, d);
}
VP_CASE(h_team13_corner) { team13(false, false); }
VP_CASE(h_team13_x) { team13(true, false); }
VP_CASE(h_team13_y) { team13(false, true); }
VP_CASE(h_team13_in) { team13(true, true); }
// stator windings: along the axis inside the stack, around the slot's radial axis outside
static void stator(int where, bool cw, bool given)
{
   Src s(3, attr());
   adept::Stack st;
   miso::CurrentDensityCoefficient c(st, one(cw ? "cwStator" : "ccwStator"));
   miso::MISOInputs in; double n = 24.0, h = 0.345, I = vp_real("I", 0, 1.6, 2);
   in["current_density:grp"] = I;
   if (given) { n = 12.0; h = vp_real("h", 0, 0.2, 0.6); vp_assume(h > 0.1); in["n_slots"] = n; in["stack_length"] = h; }
   setInputs(c, in);
   const double x = s.x(0), y = s.x(1), z = s.x(2), pitch = 2 * M_PI / n, th = atan2(y, x), k = round(th / pitch);
   double e[3] = {0, 0, 0};
   vp_assume(x * x + y * y > 0.01);
   if (where == 0)
   {
      vp_assume(z > -h / 2); vp_assume(z < h / 2);
      const double off = th - k * pitch; bool left = vp_bool("left");
      vp_assume(left ? off > 0 : off < 0);
      e[2] = (left ? 1.0 : -1.0) * (cw ? I : -I);
   }
   else
   {
      const double zz = where > 0 ? z - h / 2 : z + h / 2, ax = cos(k * pitch), ay = sin(k * pitch);
      vp_assume(where > 0 ? zz > 1e-3 : zz < -1e-3);
      double c0 = -zz * ay, c1 = zz * ax, c2 = x * ay - y * ax, r = sqrt(c0 * c0 + c1 * c1 + c2 * c2), sc = (cw ? -I : I) / r;
      e[0] = sc * c0; e[1] = sc * c1; e[2] = sc * c2;
   }
   value(c, s, e);
   // away from the jumps
   const double off = th - k * pitch;
   vp_assume(off > -0.45 * pitch); vp_assume(off < 0.45 * pitch);
   if (where == 0) { vp_assume(off * off > 0.0025 * pitch * pitch); vp_assume(z > -0.49 * h); vp_assume(z < 0.49 * h); }
   sens(c, s);
}
VP_CASE(h_stator_in) { stator(0, vp_bool("cw"), vp_bool("given")); }
VP_CASE(h_stator_above) { stator(1, vp_bool("cw"), vp_bool("given")); }
VP_CASE(h_stator_below) { stator(-1, vp_bool("cw"), vp_bool("given")); }
#include "em_src_groups.hpp"
