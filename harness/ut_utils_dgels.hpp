// contract of LAPACK's dgels('N') on a full-rank matrix A (m x n, column major):
// the solutions X of  A X = B (m < n) or the least-squares solutions (m >= n).
// For B = I, m >= n, full rank: X A = I.
#ifndef VP_NATIVE
extern "C" void contract_dgels(char *trans, int *m, int *n, int *nrhs, double *A, int *lda, double *B, int *ldb, double *work, int *lwork, int *info)
{
   vp_true("dgels is called without transposition", *trans == 'N');
   vp_true("dgels leading dimensions", *lda >= *m && *ldb >= *m && *ldb >= *n);
   int M = *m, N = *n, R = *nrhs;
   if (M <= N)
   {
      for (int r = 0; r < R; ++r)
      {
         double rhs[64];
         for (int i = 0; i < M; ++i) { rhs[i] = B[i + r * *ldb]; }
         for (int j = 0; j < N; ++j) { B[j + r * *ldb] = vp_fresh("solution"); }
         for (int i = 0; i < M; ++i)
         {
            double s = 0.0;
            for (int j = 0; j < N; ++j) { s += A[i + j * *lda] * B[j + r * *ldb]; }
            vp_assume(s == rhs[i]);
         }
      }
   }
   else
   {
      vp_true("the right-hand side is the identity", R == M);
      for (int i = 0; i < M; ++i) { for (int r = 0; r < R; ++r) { vp_true("the right-hand side is the identity", B[i + r * *ldb] == (i == r ? 1.0 : 0.0)); } }
      for (int r = 0; r < R; ++r) { for (int j = 0; j < N; ++j) { B[j + r * *ldb] = vp_fresh("coefficient"); } }
      for (int j = 0; j < N; ++j)
      {
         for (int k = 0; k < N; ++k)
         {
            double s = 0.0;
            for (int r = 0; r < R; ++r) { s += B[j + r * *ldb] * A[r + k * *lda]; }
            vp_assume(s == (j == k ? 1.0 : 0.0));
         }
      }
   }
   *info = 0;
}
#else
// native replay: least squares / minimum norm by normal equations
extern "C" void dgels_(char *, int *m, int *n, int *nrhs, double *A, int *lda, double *B, int *ldb, double *, int *, int *info)
{
   int M = *m, N = *n, R = *nrhs, K = M <= N ? M : N, L = *lda;
   std::vector<double> G(K * K), X(K), S(N);
   auto a = [&](int i, int j) { return A[i + j * L]; };
   for (int r = 0; r < R; ++r)
   {
      double *b = B + r * *ldb;
      for (int i = 0; i < K; ++i)
      {
         X[i] = 0.0;
         if (M > N) { for (int q = 0; q < M; ++q) { X[i] += a(q, i) * b[q]; } } else { X[i] = b[i]; }
         for (int j = 0; j < K; ++j)
         {
            G[i * K + j] = 0.0;
            if (M > N) { for (int q = 0; q < M; ++q) { G[i * K + j] += a(q, i) * a(q, j); } }
            else { for (int q = 0; q < N; ++q) { G[i * K + j] += a(i, q) * a(j, q); } }
         }
      }
      for (int i = 0; i < K; ++i)
      {
         int p = i;
         for (int q = i; q < K; ++q) { if (fabs(G[q * K + i]) > fabs(G[p * K + i])) { p = q; } }
         for (int j = 0; j < K; ++j) { std::swap(G[i * K + j], G[p * K + j]); }
         std::swap(X[i], X[p]);
         vp_assume(fabs(G[i * K + i]) > 1e-4);   // full rank, numerically
         for (int q = 0; q < K; ++q)
         {
            if (q == i) { continue; }
            double f = G[q * K + i] / G[i * K + i];
            for (int j = 0; j < K; ++j) { G[q * K + j] -= f * G[i * K + j]; }
            X[q] -= f * X[i];
         }
      }
      for (int i = 0; i < K; ++i) { X[i] /= G[i * K + i]; }
      if (M > N) { for (int i = 0; i < K; ++i) { b[i] = X[i]; } }
      else { for (int j = 0; j < N; ++j) { b[j] = 0.0; for (int q = 0; q < K; ++q) { b[j] += a(q, j) * X[q]; } } }
   }
   *info = 0;
}
#endif
