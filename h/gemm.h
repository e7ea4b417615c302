// Reference GEMM with the Fortran calling convention of BLAS.h: the BLAS library is not part of the repository.
#pragma once
#include "mat.h"
inline char trans(char c) { return (c == 'n' || c == 'N') ? 'N' : (c == 't' || c == 'T') ? 'T' : 'C'; }
template <typename T>
static void gemm(char ta, char tb, int m, int n, int k, T alpha, const T* a, int lda, const T* b, int ldb, T beta, T* c, int ldc)
{
	ta = trans(ta);
	tb = trans(tb);
	psx_assert(m >= 0 && n >= 0 && k >= 0, "sizes given to the BLAS are not negative");
	psx_assert(lda >= std::max(1, ta == 'N' ? m : k) && ldb >= std::max(1, tb == 'N' ? k : n) && ldc >= std::max(1, m), "leading dimensions fit");
	for (int i = 0; i < m; ++i)
		for (int j = 0; j < n; ++j) {
			T s = 0;
			for (int q = 0; q < k; ++q) {
				T x = ta == 'N' ? a[i + q * lda] : ta == 'C' ? cj(a[q + i * lda]) : a[q + i * lda];
				T y = tb == 'N' ? b[q + j * ldb] : tb == 'C' ? cj(b[j + q * ldb]) : b[j + q * ldb];
				s += x * y;
			}
			T old = beta == T(0) ? T(0) : beta * c[i + j * ldc];
			c[i + j * ldc] = alpha * s + old;
		}
}
extern "C" void dgemm_(char* ta, char* tb, int* m, int* n, int* k, const double* al, const double* a, int* lda, const double* b, int* ldb, const double* be, double* c, int* ldc)
{
	gemm<double>(*ta, *tb, *m, *n, *k, *al, a, *lda, b, *ldb, *be, c, *ldc);
}
extern "C" void zgemm_(char* ta, char* tb, int* m, int* n, int* k, const Cx* al, const Cx* a, int* lda, const Cx* b, int* ldb, const Cx* be, Cx* c, int* ldc)
{
	gemm<Cx>(*ta, *tb, *m, *n, *k, *al, a, *lda, b, *ldb, *be, c, *ldc);
}
