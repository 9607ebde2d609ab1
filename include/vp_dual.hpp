// Forward-mode dual number used to state differential contracts: the real
// templates of /repo are instantiated with it, so d is the exact derivative of
// the code's own expression.
#ifndef VP_DUAL_HPP
#define VP_DUAL_HPP
#include <cmath>
struct Dual
{
   double v, d;
   Dual() : v(0.0), d(0.0) {}
   Dual(double a) : v(a), d(0.0) {}
   Dual(double a, double b) : v(a), d(b) {}
   Dual &operator+=(const Dual &o) { v = v + o.v; d = d + o.d; return *this; }
   Dual &operator-=(const Dual &o) { v = v - o.v; d = d - o.d; return *this; }
   Dual &operator*=(const Dual &o) { d = d * o.v + v * o.d; v = v * o.v; return *this; }
   Dual &operator/=(const Dual &o) { double q = v / o.v; d = (d - q * o.d) / o.v; v = q; return *this; }
   Dual operator-() const { return Dual(-v, -d); }
   Dual operator+() const { return *this; }
};
inline Dual operator+(Dual a, const Dual &b) { a += b; return a; }
inline Dual operator-(Dual a, const Dual &b) { a -= b; return a; }
inline Dual operator*(Dual a, const Dual &b) { a *= b; return a; }
inline Dual operator/(Dual a, const Dual &b) { a /= b; return a; }
inline bool operator<(const Dual &a, const Dual &b) { return a.v < b.v; }
inline bool operator>(const Dual &a, const Dual &b) { return a.v > b.v; }
inline bool operator<=(const Dual &a, const Dual &b) { return a.v <= b.v; }
inline bool operator>=(const Dual &a, const Dual &b) { return a.v >= b.v; }
inline bool operator==(const Dual &a, const Dual &b) { return a.v == b.v; }
inline bool operator!=(const Dual &a, const Dual &b) { return a.v != b.v; }
inline Dual sqrt(const Dual &a) { double s = std::sqrt(a.v); return Dual(s, a.d / (2.0 * s)); }
inline Dual exp(const Dual &a) { double e = std::exp(a.v); return Dual(e, e * a.d); }
inline Dual log(const Dual &a) { return Dual(std::log(a.v), a.d / a.v); }
inline Dual sin(const Dual &a) { return Dual(std::sin(a.v), std::cos(a.v) * a.d); }
inline Dual cos(const Dual &a) { return Dual(std::cos(a.v), -std::sin(a.v) * a.d); }
inline Dual pow(const Dual &a, double p) { return Dual(std::pow(a.v, p), p * std::pow(a.v, p - 1.0) * a.d); }
inline Dual pow(const Dual &a, int p) { return pow(a, double(p)); }
inline Dual pow(const Dual &a, const Dual &p) { return pow(a, p.v); } // constant exponents only
inline Dual fabs(const Dual &a) { return a.v < 0 ? -a : a; }
inline Dual abs(const Dual &a) { return fabs(a); }
#endif
