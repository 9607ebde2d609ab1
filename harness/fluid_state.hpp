#ifndef FLUID_STATE_HPP
#define FLUID_STATE_HPP
// an arbitrary admissible conservative state, parameterised bijectively by
// density, velocity and pressure
template <int dim>
void conservative_state(const char *name, double *q, double *prim = nullptr)
{
   double rho = vp_real(name, 0, 0.2, 3.0);
   vp_assume(rho > 0);
   double p = vp_real(name, dim + 1, 0.2, 3.0);
   vp_assume(p > 0);
   double ke = 0;
   q[0] = rho;
   for (int i = 0; i < dim; ++i)
   {
      double u = vp_real(name, i + 1, -2.0, 2.0);
      q[i + 1] = rho * u;
      ke += u * u;
      if (prim) prim[i + 1] = u;
   }
   q[dim + 1] = p * 2.5 + 0.5 * rho * ke;
   if (prim) { prim[0] = rho; prim[dim + 1] = p; }
}
// the same state with rho = z0 z1, p = z1/z0 (z0, z1 > 0: again a bijection),
// which makes the square roots of Ismail and Roe's parameter vector explicit
template <int dim>
void conservative_state_z(const char *name, double *q, double *prim = nullptr)
{
   double z0 = vp_real(name, 0, 0.4, 2.0);
   vp_assume(z0 > 0);
   double z1 = vp_real(name, dim + 1, 0.4, 2.0);
   vp_assume(z1 > 0);
   double rho = z0 * z1, p = z1 / z0;
   double ke = 0;
   q[0] = rho;
   for (int i = 0; i < dim; ++i)
   {
      double u = vp_real(name, i + 1, -2.0, 2.0);
      q[i + 1] = rho * u;
      ke += u * u;
      if (prim) prim[i + 1] = u;
   }
   q[dim + 1] = p * 2.5 + 0.5 * rho * ke;
   if (prim) { prim[0] = rho; prim[dim + 1] = p; }
}
template <int dim> void real_vec(const char *name, double *v, double lo = -2.0, double hi = 2.0)
{
   for (int i = 0; i < dim; ++i) v[i] = vp_real(name, i, lo, hi);
}
template <int dim> double nonzero_dir(const char *name, double *dir)
{
   real_vec<dim>(name, dir);
   double n2 = 0;
   for (int i = 0; i < dim; ++i) n2 += dir[i] * dir[i];
   vp_assume(n2 > 0);
   if (dim == 1) vp_assume(vp_choice("dirsign", 0, 1) ? dir[0] < 0 : dir[0] > 0); // case split
   return n2;
}
template <int n> double dotp(const double *a, const double *b)
{
   double s = 0;
   for (int i = 0; i < n; ++i) s += a[i] * b[i];
   return s;
}
#endif
