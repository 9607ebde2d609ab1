// Closed formulas of the orthonormal polynomials on the biunit segment, right triangle and right tetrahedron.
#ifndef SBP_SPEC_HPP
#define SBP_SPEC_HPP
#include <cmath>
static double s_pow(double x, int n) { double r = 1.0; for (int i = 0; i < n; ++i) { r *= x; } return r; }
static double s_fact(int n) { double r = 1.0; for (int i = 2; i <= n; ++i) { r *= i; } return r; }
static double s_binom(int n, int k) { double r = 1.0; for (int i = 0; i < k; ++i) { r = r * (n - i) / (i + 1); } return r; }
static double s_norm(int n, int a, int b) { return s_pow(2.0, a + b + 1) / (2 * n + a + b + 1) * (s_fact(n + a) * s_fact(n + b)) / (s_fact(n) * s_fact(n + a + b)); }
// sum_s C(n+a,n-s) C(n+b,s) m^s p^(n-s); with m = (x-1)/2, p = (x+1)/2 the Jacobi polynomial
static double s_form(int n, int a, int b, double m, double p) { double r = 0.0; for (int s = 0; s <= n; ++s) { r += s_binom(n + a, n - s) * s_binom(n + b, s) * s_pow(m, s) * s_pow(p, n - s); } return r; }
static double jacobi_spec(int n, int a, int b, double x) { return s_form(n, a, b, 0.5 * (x - 1.0), 0.5 * (x + 1.0)) / std::sqrt(s_norm(n, a, b)); }
static double tri_spec(int i, int j, double x, double y)
{
   return std::sqrt(2.0) * (s_form(i, 0, 0, x + y, 1.0 + x) / std::sqrt(s_norm(i, 0, 0))) * jacobi_spec(j, 2 * i + 1, 0, y);
}
static double tet_spec(int i, int j, int k, double x, double y, double z)
{
   return std::sqrt(8.0) * s_pow(2.0, i) * (s_form(i, 0, 0, 1.0 + x + y + z, 1.0 + x) / std::sqrt(s_norm(i, 0, 0))) * (s_form(j, 2 * i + 1, 0, y + z, 1.0 + y) / std::sqrt(s_norm(j, 2 * i + 1, 0))) * jacobi_spec(k, 2 * i + 2 * j + 2, 0, z);
}
#endif
