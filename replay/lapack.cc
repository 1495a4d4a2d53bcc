// Dense LU in double precision, built as the shared library devsim loads its LAPACK from.
#include <cmath>
#include <utility>
extern "C" {
__attribute__((visibility("default"))) void dgetrf_(int *m, int *n, double *a, int *lda, int *ipiv, int *info) {
  *info = 0; int N = *n, L = *lda;
  for (int k = 0; k < N; ++k) {
    int p = k; for (int i = k + 1; i < N; ++i) if (std::fabs(a[i + k * L]) > std::fabs(a[p + k * L])) p = i;
    ipiv[k] = p + 1;
    if (a[p + k * L] == 0) { if (!*info) *info = k + 1; continue; }
    if (p != k) for (int j = 0; j < N; ++j) std::swap(a[k + j * L], a[p + j * L]);
    for (int i = k + 1; i < N; ++i) { a[i + k * L] /= a[k + k * L]; for (int j = k + 1; j < N; ++j) a[i + j * L] -= a[i + k * L] * a[k + j * L]; }
  }
}
__attribute__((visibility("default"))) void dgetrs_(char *, int *n, int *nrhs, double *a, int *lda, int *ipiv, double *b, int *ldb, int *info) {
  *info = 0; int N = *n, L = *lda;
  for (int q = 0; q < *nrhs; ++q) {
    double *x = b + q * *ldb;
    for (int k = 0; k < N; ++k) if (ipiv[k] - 1 != k) std::swap(x[k], x[ipiv[k] - 1]);
    for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) x[i] -= a[i + j * L] * x[j];
    for (int i = N - 1; i >= 0; --i) { for (int j = i + 1; j < N; ++j) x[i] -= a[i + j * L] * x[j]; x[i] /= a[i + i * L]; }
  }
}
}
