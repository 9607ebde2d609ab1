// Stand-in for tinyspline (not installed here): the part of its C++ API that
// /repo uses.  ASSUMED CONTRACT of the dependency: a spline is a smooth function
// of its parameter, determined by its degree, knots and control points; derive()
// is its exact derivative; control points and knots must come in the numbers the
// spline was declared with, and it is evaluated within its knots.
#ifndef VP_TINYSPLINE_H
#define VP_TINYSPLINE_H
#include <cstddef>
#include <vector>
#include "vp.hpp"
namespace tinyspline
{
typedef double real;
class DeBoorNet
{
   double v;
public:
   DeBoorNet(double x) : v(x) { }
   std::vector<real> result() const { return std::vector<real>(1, v); }
};
class BSpline
{
   std::vector<real> c, k;
   std::size_t n, dim, deg;
   int order;
public:
   explicit BSpline(std::size_t numControlPoints, std::size_t dimension = 2, std::size_t degree = 3) : n(numControlPoints), dim(dimension), deg(degree), order(0)
   {
      vp_true("a spline has more control points than its degree", n > deg && dim == 1);
   }
   void setControlPoints(const std::vector<real> &cps) { vp_true("a spline is given the control points it was declared with", cps.size() == n * dim); c = cps; }
   void setKnots(const std::vector<real> &knots) { vp_true("a spline is given one knot for each control point and degree, and one more", knots.size() == n + deg + 1); k = knots; }
   BSpline derive(std::size_t m = 1) const
   {
      vp_true("a spline is complete before it is used", c.size() == n && k.size() == n + deg + 1);
      BSpline d(*this); d.order += (int)m; return d;
   }
   DeBoorNet eval(real t) const
   {
      vp_true("a spline is complete before it is used", c.size() == n && k.size() == n + deg + 1);
      vp_le("a spline is evaluated from its first knot", k[0], t);
      vp_le("a spline is evaluated up to its last knot", t, k[k.size() - 1]);
      double a[32]; int m = 0;
      a[m++] = t;
      for (std::size_t i = 0; i < c.size(); ++i) { a[m++] = c[i]; }
      for (std::size_t i = 0; i < k.size(); ++i) { a[m++] = k[i]; }
      a[m++] = (double)deg;
      static const char *nm[4] = { "spline", "D0@spline", "D0@D0@spline", "D0@D0@D0@spline" };
      return DeBoorNet(vp_fn(nm[order], m, a));
   }
};
}
#endif
