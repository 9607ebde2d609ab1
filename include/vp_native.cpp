// Native back end of vp.hpp: runs a harness on concrete inputs against the real code.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <random>
#include "vp.hpp"
#include "vp_harness.hpp"
#include <iostream>
#include <sstream>
#ifdef VP_MPI
#include <mpi.h>
#include "mfem.hpp"
// mfem errors become exceptions (the library is built without them)
namespace mfem { void mfem_error(const char *msg) { throw std::runtime_error(msg ? msg : "mfem error"); } }
#endif

static std::map<std::string, double> given, used;
static std::mt19937_64 rng;
static bool failed;
static std::string failtxt;
static const char *only = nullptr;
struct AssumeFailed {};
std::map<std::string, void (*)()> &vp_registry()
{
   static std::map<std::string, void (*)()> r;
   return r;
}
static double unif() { return std::uniform_real_distribution<double>(0, 1)(rng); }
static void fail(const char *l, double a, double b)
{
   if (only && *only && strcmp(l, only)) return;
   char buf[600];
   snprintf(buf, sizeof buf, "FAIL %s : lhs=%.17g rhs=%.17g\n", l, a, b);
   failed = true;
   failtxt += buf;
}
static double scale3(double a, double b) { return 1.0 + std::fabs(a) + std::fabs(b); }
static double rtol = 1e-7;
extern "C"
{
double vp_real(const char *name, int idx, double lo, double hi)
{
   std::string n = idx < 0 ? std::string(name) : std::string(name) + "[" + std::to_string(idx) + "]";
   auto it = used.find(n);
   if (it != used.end()) return it->second;
   auto g = given.find(n);
   double v;
   if (g != given.end()) v = g->second;
   else
   {
      // occasionally special values
      double u = unif();
      if (u < 0.02 && lo <= 0 && 0 <= hi) v = 0.0;
      else if (u < 0.04) v = lo;
      else if (u < 0.06) v = hi;
      else if (u < 0.08 && lo <= 1 && 1 <= hi) v = u < 0.07 || lo > -1 ? 1.0 : -1.0;
      else if (u < 0.14 && !used.empty())
      {
         auto j = used.begin(); std::advance(j, rng() % used.size()); v = j->second;
         if (v < lo || v > hi) v = lo + (hi - lo) * unif();
      }
      else v = lo + (hi - lo) * unif();
   }
   return used[n] = v;
}
static int ival(const char *name, int lo, int hi)
{
   auto it = used.find(name);
   if (it != used.end()) return (int)it->second;
   auto g = given.find(name);
   int v = g != given.end() ? (int)g->second : lo + (int)(rng() % (unsigned long)((long)hi - lo + 1));
   used[name] = v;
   return v;
}
int vp_int(const char *name, int lo, int hi)
{
   // symbolic sizes are kept small natively
   int h = hi; if ((long)h - lo > 24) h = lo + 24;
   int v = ival(name, lo, h);
   if (v < lo || v > hi) throw AssumeFailed();
   return v;
}
int vp_choice(const char *name, int lo, int hi) { return ival(name, lo, hi); }
bool vp_bool(const char *name) { return ival(name, 0, 1) != 0; }
void vp_assume(bool c) { if (!c) throw AssumeFailed(); }
void vp_eq(const char *l, double a, double b)
{
   if (!(std::fabs(a - b) <= rtol * scale3(a, b))) fail(l, a, b);
}
void vp_eqtol(const char *l, double a, double b, double tol)
{
   if (!(std::fabs(a - b) <= tol + 1e-12 * scale3(a, b))) fail(l, a, b);
}
void vp_fact_eq(const char *l, double a, double b) { vp_eq(l, a, b); }
void vp_le(const char *l, double a, double b) { if (!(a <= b + rtol * scale3(a, b) * 1e-3)) fail(l, a, b); }
void vp_lt(const char *l, double a, double b) { if (!(a < b + rtol * scale3(a, b) * 1e-3)) fail(l, a, b); }
void vp_true(const char *l, bool c) { if (!c) fail(l, c, 1); }
void vp_ieq(const char *l, long a, long b) { if (a != b) fail(l, (double)a, (double)b); }
// a fixed smooth function determined by its name; D<i>@D<j>@name are its partial derivatives
static double vp_fnk(const char *name, int m, int *ks, int n, const double *x)
{
   while (name[0] == 'D' && name[1] >= '0' && name[1] <= '9' && strchr(name, '@')) { ks[m++] = atoi(name + 1); name = strchr(name, '@') + 1; }
   unsigned long h = 1469598103934665603UL;
   for (const char *p = name; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211UL;
   double s = 0.3 + (h % 97) / 97.0;
   auto sn = [&](double t) { double v = m % 2 == 0 ? std::sin(t) : std::cos(t); return m % 4 < 2 ? v : -v; };
   auto ce = [&](int i) { return 0.2 + ((h >> ((3 + 5 * i) % 48)) % 7) / 14.0; };
   double r = m ? 0.0 : s, g = s, c = 0.3;
   for (int i = 0; i < n; ++i) { g += ce(i) * x[i]; }
   for (int i = 0; i < m; ++i) { c *= ce(ks[i]); }
   r += c * sn(g);
   for (int i = 0; i < n; ++i)
   {
      bool own = true;
      for (int j = 0; j < m; ++j) { own = own && ks[j] == i; }
      if (!own) { continue; }
      double a = 0.5 + ((h >> ((5 + 3 * i) % 48)) % 31) / 31.0, b = ((h >> ((9 + 2 * i) % 48)) % 17) / 17.0;
      r += a * std::pow(1.1 + b, m) * sn((1.1 + b) * x[i] + 0.7 * i + s) + (m == 0 ? 0.13 * b * x[i] : m == 1 ? 0.13 * b : 0.0);
   }
   return r;
}
double vp_fn(const char *name, int n, const double *x) { int ks[8]; return vp_fnk(name, 0, ks, n, x); }
double vp_dfn(const char *name, int k, int n, const double *x) { int ks[8] = {k}; return vp_fnk(name, 1, ks, n, x); }
double vp_cut(const char *, double v) { return v; }
double vp_fresh(const char *name) { fprintf(stderr, "vp_fresh(%s) is symbolic only\n", name); abort(); }
double vp_diff(double, double) { abort(); }
void vp_tol(double t) { rtol = t; }
void vp_cand(const char *, bool) {}
void vp_reach(const char *) {}
void vp_log(const char *, double) {}
int vp_symbolic() { return 0; }
}
// usage: prog HARNESS seed count [only-label] [name=value ...]
// prints "RESULT held n" / "RESULT failed" with the failing inputs
int main(int argc, char **argv)
{
   std::string h = argc > 1 ? argv[1] : "";
   unsigned long seed = argc > 2 ? strtoul(argv[2], 0, 10) : 1;
   long count = argc > 3 ? atol(argv[3]) : 1;
   only = argc > 4 ? argv[4] : nullptr;
   for (int i = 5; i < argc; ++i)
   {
      std::string s = argv[i];
      auto p = s.rfind('=');
      given[s.substr(0, p)] = strtod(s.c_str() + p + 1, 0);
   }
   auto it = vp_registry().find(h);
   if (it == vp_registry().end()) { fprintf(stderr, "no harness %s\n", h.c_str()); return 3; }
   long ran = 0;
   const bool throw_ok = getenv("VP_THROW_OK") != nullptr;
   std::ostringstream sink;
   auto *cout0 = std::cout.rdbuf(sink.rdbuf());
   std::cerr.rdbuf(sink.rdbuf());
#ifdef VP_MPI
   MPI_Init(nullptr, nullptr);
   mfem::out.Disable(); mfem::err.Disable();
#endif
   int rc = 0;
   for (long k = 0; k < count; ++k)
   {
      rng.seed(seed * 1000003UL + k);
      used.clear();
      failed = false; failtxt.clear(); rtol = 1e-7;
      try { it->second(); }
      catch (AssumeFailed &) { continue; }
      catch (std::exception &e) { if (throw_ok) continue; fail("no exception escapes", 0, 1); failtxt += std::string("exception: ") + e.what() + "\n"; }
      ++ran;
      if (failed)
      {
         printf("%s", failtxt.c_str());
         for (auto &u : used) printf("INPUT %s=%.17g\n", u.first.c_str(), u.second);
         printf("RESULT failed\n");
         rc = 1; break;
      }
      if (k % 256 == 0) sink.str("");
   }
   if (!rc) printf("RESULT held %ld\n", ran);
   std::cout.rdbuf(cout0);
   fflush(stdout);
   _Exit(rc);
}
