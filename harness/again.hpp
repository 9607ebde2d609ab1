// an evaluation overwrites what its result and its scratch storage held: callers reuse both
#ifndef VP_AGAIN_HPP
#define VP_AGAIN_HPP
template <class F> static void vp_twice(mfem::Vector &m, F f)
{
   f(m);
   const mfem::Vector k(m);
   f(m);
   vp_ieq("evaluated again, the result has the same size", m.Size(), k.Size());
   for (int i = 0; i < k.Size(); ++i) { vp_eq("evaluated again, the result is the same", m(i), k(i)); }
}
template <class F> static void vp_twice(mfem::DenseMatrix &m, F f)
{
   f(m);
   const mfem::DenseMatrix k(m);
   f(m);
   vp_true("evaluated again, the result has the same size", m.Height() == k.Height() && m.Width() == k.Width());
   for (int i = 0; i < k.Height(); ++i) { for (int j = 0; j < k.Width(); ++j) { vp_eq("evaluated again, the result is the same", m(i, j), k(i, j)); } }
}
#endif
