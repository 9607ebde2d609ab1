// Fixtures of the face integrators: a curved face with arbitrary nodes between two
// elements (or on the boundary of one), each with its own reference points, basis
// functions, numbering and orientation of degrees of freedom.
#ifndef FACE_FIXTURE_HPP
#define FACE_FIXTURE_HPP
// element next to the face; its points lie at its own mark and, on the second
// side, run against those of the face
struct SideEl : El
{
   double mark;
   SideEl(int D, int n, int order, int side) : El(D, n, order), mark(side == 1 ? 0.5 : 0.625) { }
   static double at(const IntegrationPoint &ip, int D) { return D == 2 ? ip.y : ip.z; }
   void here(const IntegrationPoint &ip) const
   {
      bool ok = at(ip, dim) == mark;
      vp_true("an element's shape functions are evaluated at the point of that element", ok);
      if (!ok) { abort(); }
   }
   void CalcShape(const IntegrationPoint &ip, Vector &o) const override { here(ip); El::CalcShape(ip, o); }
   void CalcDShape(const IntegrationPoint &ip, DenseMatrix &o) const override { here(ip); El::CalcDShape(ip, o); }
   void CalcVShape(const IntegrationPoint &ip, DenseMatrix &o) const override { here(ip); El::CalcVShape(ip, o); }
   void CalcCurlShape(const IntegrationPoint &ip, DenseMatrix &o) const override { here(ip); El::CalcCurlShape(ip, o); }
};
struct FaceMap : mfem::FiniteElement   // barycentric coordinates of the points of the face
{
   int D;
   FaceMap(int D) : mfem::FiniteElement(D - 1, D == 2 ? mfem::Geometry::SEGMENT : mfem::Geometry::TRIANGLE, D, 1), D(D) { }
   void CalcShape(const IntegrationPoint &ip, Vector &o) const override { o(1) = ip.x; if (D == 3) { o(2) = ip.y; } o(0) = 1.0 - ip.x - (D == 3 ? ip.y : 0.0); }
   void CalcDShape(const IntegrationPoint &, DenseMatrix &) const override { abort(); }
};
// nodes and tangents of the face: D nodes, tangents from tables that differ between the points
struct FaceNodes : mfem::FiniteElement
{
   int D; double s[NQ][3];
   FaceNodes(int D) : mfem::FiniteElement(D - 1, D == 2 ? mfem::Geometry::SEGMENT : mfem::Geometry::TRIANGLE, D, 2), D(D)
   {
      for (int q = 0; q < NQ; ++q) { for (int j = 0; j < D; ++j) { s[q][j] = vp_real("fN", q * D + j, -1, 1); } }
   }
   static double d(int q, int j, int k)
   {
      static const double c0[3][2] = {{-1, -1}, {1, 0.25}, {0.125, 1}}, c1[3][2] = {{-0.75, -1}, {1, -0.25}, {0.5, 1}};
      return q ? c1[j][k] : c0[j][k];
   }
   void CalcShape(const IntegrationPoint &ip, Vector &o) const override { int q = vp_point(ip); El::sized(o.Size() == D); for (int j = 0; j < D; ++j) { o(j) = s[q][j]; } }
   void CalcDShape(const IntegrationPoint &ip, DenseMatrix &o) const override { int q = vp_point(ip); El::sized(o.Height() == D && o.Width() == D - 1); for (int j = 0; j < D; ++j) { for (int k = 0; k < D - 1; ++k) { o(j, k) = d(q, j, k); } } }
};
struct Face : mfem::FaceElementTransformations
{
   FaceNodes fe; FaceMap map; int D; double X[9];
   Face(int D, const char *n, Iso &t1, Iso *t2, bool bdr) : fe(D), map(D), D(D)
   {
      SetFE(&fe);
      for (int d = 0; d < D; ++d) { for (int j = 0; j < D; ++j) { X[d * D + j] = d + 1 == j ? vp_real(n, d * D + j, 0.7, 1.5) : vp_real(n, d * D + j, -0.3, 0.3); } }
      put(X);
      Attribute = 1; ElementNo = vp_world.faceno; vp_world.facebdr = bdr;
      ElementType = bdr ? BDR_FACE : FACE;
      Elem1 = &t1; Elem1No = t1.ElementNo; Elem2 = t2; Elem2No = t2 ? t2->ElementNo : -1;
      // face (s,t) -> element 1 (1/2 s, .., mark), element 2 (1 - s, .., mark)
      DenseMatrix E(D, D);
      for (int side = 1; side <= 2; ++side)
      {
         E = 0.0;
         for (int j = 0; j < D; ++j)
         {
            E(0, j) = side == 1 ? (j == 1 ? 1.0 : 0.0) : (j == 1 ? 0.0 : 1.0);
            if (D == 3) { E(1, j) = j == 2 ? 1.0 : 0.0; }
            E(D - 1, j) = side == 1 ? 0.5 : 0.625;
         }
         auto &L = side == 1 ? Loc1 : Loc2;
         L.Transf.SetFE(&map); L.Transf.SetPointMat(E);
      }
      SetConfigurationMask(HAVE_ELEM1 | HAVE_LOC1 | HAVE_FACE | (t2 ? HAVE_ELEM2 | HAVE_LOC2 : 0));
      vp_world.face = this;
   }
   void put(const double *x)
   {
      DenseMatrix P(D, D);
      for (int d = 0; d < D; ++d) { for (int j = 0; j < D; ++j) { P(d, j) = x[d * D + j]; } }
      SetPointMat(P);
   }
   int dofs() const { return D * D; }
   double J(int q, int a, int k) const { double r = 0.0; for (int j = 0; j < D; ++j) { r += X[a * D + j] * FaceNodes::d(q, j, k); } return r; }
   // squared area element
   double area2(int q) const
   {
      if (D == 2) { return J(q, 0, 0) * J(q, 0, 0) + J(q, 1, 0) * J(q, 1, 0); }
      double E = 0, F = 0, G = 0;
      for (int a = 0; a < 3; ++a) { E += J(q, a, 0) * J(q, a, 0); F += J(q, a, 0) * J(q, a, 1); G += J(q, a, 1) * J(q, a, 1); }
      return E * G - F * F;
   }
   double area(int q) const { return sqrt(area2(q)); }
   void valid() { for (int q = 0; q < NQ; ++q) { vp_assume(area2(q) > 0.01); } }
};
// point of the second element that coincides with point q of the face
static int vp_other(int q) { return 1 - q; }
// field on both elements of a face: el1, el2 are what the elements see (both: one after the other)
struct Field2 : mfem::GridFunction
{
   VpSpace sp; DofTr dt1, dt2; Vector both; int n1, n2;
   Field2(const mfem::FiniteElement *f1, const mfem::FiniteElement *f2, const char *n, bool tr = true, double lo = -1, double hi = 1) : sp(f1, tr ? &dt1 : nullptr), dt1(f1->GetDof()), dt2(f2->GetDof()), n1(f1->GetDof()), n2(f2->GetDof())
   {
      fes = &sp;
      sp.fe2 = f2; sp.tr2 = tr ? &dt2 : nullptr;
      const int k = n1 + n2;
      SetSize(k);
      both.SetSize(k); sp.vd.SetSize(n1); sp.vd2.SetSize(n2);
      for (int i = 0; i < k; ++i)
      {
         int at = (i + 1) % k, l = i < n1 ? i : i - n1;
         bool flip = l == 0;
         (i < n1 ? sp.vd : sp.vd2)[l] = flip ? -1 - at : at;
         both(i) = vp_real(n, i, lo, hi);
         (*this)(at) = (flip ? -both(i) : both(i)) / (tr ? DofTr::t(l) : 1.0);
      }
   }
   double at1(const El &e, int q) const { double r = 0.0; for (int i = 0; i < n1; ++i) { r += e.s[q][i] * both(i); } return r; }
   double at2(const El &e, int q) const { double r = 0.0; for (int i = 0; i < n2; ++i) { r += e.s[vp_other(q)][i] * both(n1 + i); } return r; }
};
// mesh space: the nodes of the face are nodes of the first element, in another order
struct MeshSpace : VpSpace
{
   El m1, m2; int D;
   int pos[9];   // position in the first element's vector of the face's degrees of freedom
   MeshSpace(int D) : VpSpace(&m1, nullptr), m1(D, D + 1, 2), m2(D, D + 2, 2), D(D)
   {
      fe2 = &m2;
      const int k = D + 1;
      vd.SetSize(D * k); vd2.SetSize(D * (D + 2)); vdface.SetSize(D * D);
      for (int i = 0; i < D * k; ++i) { vd[i] = 40 + (5 * i) % (D * k); }
      for (int i = 0; i < D * (D + 2); ++i) { vd2[i] = 60 + i; }
      for (int d = 0; d < D; ++d) { for (int j = 0; j < D; ++j) { pos[d * D + j] = d * k + (j + 2) % k; vdface[d * D + j] = vd[pos[d * D + j]]; } }
   }
};
// the sensitivity of a face between two elements is that of the face's nodes, stored with the first element
template <class E, class S> void faceSens(Face &t, MeshSpace &sp, E energy, S sens, const char *label)
{
   const int n = t.dofs();
   double g[9];
   vp_world.asked = 0;
   gradient([&](double *x) { t.put(x); return energy(); }, t.X, n, g);
   t.put(t.X);
   const int o = vp_world.order, ge = vp_world.geom, asked = vp_world.asked;
   Vector m;
   vp_twice(m, sens);
   if (asked) { vp_ieq("sensitivity and functional use the same quadrature order", vp_world.order, o); vp_ieq("sensitivity and functional use the same quadrature geometry", vp_world.geom, ge); }
   const int k1 = sp.vd.Size(), k2 = sp.vd2.Size();
   vp_ieq("one mesh sensitivity per node coordinate of both elements", m.Size(), k1 + k2);
   double e[32];
   for (int i = 0; i < k1 + k2; ++i) { e[i] = 0.0; }
   for (int i = 0; i < n; ++i) { e[sp.pos[i]] = g[i]; }
   for (int i = 0; i < k1 + k2; ++i) { vp_eq(label, m(i), e[i]); }
}
#endif
