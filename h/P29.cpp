// P29: blocked parallel matrix multiplication.
//@ src: Concurrency.cpp MpiNo.cpp
//@ bounds: results up to 7x7 (thorough 11x11), inner dimension 0..2, block sizes 0..4 (0..7), 1..3 threads and every schedule of them, the three transpositions of either operand in either case, leading dimensions with and without room to spare, every integer element, alpha and beta in [-3,3] (parts in [-1,1] for complex); larger ones of fixed shape and pattern (tens of rows, hundreds of entries) with a few symbolic values
//@ assume: the blocks run over a reference GEMM in the harness (the BLAS library itself is not part of the repository); threads switch at synchronisation operations only, which is enough in the absence of data races, and data races are reported
//@ case large max_instr=60000000
//@ case large_complex max_instr=60000000
#include "gemm.h"
#include "GemmR.h"
using namespace PsimagLite;

static const char g_trans[6] = { 'N', 'T', 'C', 'n', 't', 'c' };
template <typename T>
static std::vector<T> buffer(const char* name, Sz n, int top)
{
	std::vector<T> v(n);
	for (Sz i = 0; i < n; ++i)
		symValue(v[i], -top, top);
	return v;
}
template <typename T>
static void run(int m, int n, int k, Sz nb, Sz threads, char ta, char tb, int spare, int top)
{
	int ra = trans(ta) == 'N' ? m : k, ca = trans(ta) == 'N' ? k : m;
	int rb = trans(tb) == 'N' ? k : n, cb = trans(tb) == 'N' ? n : k;
	int lda = std::max(1, ra) + (spare & 1), ldb = std::max(1, rb) + ((spare >> 1) & 1), ldc = std::max(1, m) + ((spare >> 2) & 1);
	std::vector<T> a = buffer<T>("a", lda * ca + 1, top), b = buffer<T>("b", ldb * cb + 1, top), c = buffer<T>("c", ldc * n + 2, top);
	std::vector<T> a0 = a, b0 = b, c0 = c;
	T alpha, beta;
	symValue(alpha, -top, top);
	symValue(beta, -top, top);
	GemmR<T> g(false, nb, threads);
	// one element is left alone on either side of the result
	g(ta, tb, m, n, k, alpha, &a[0], lda, &b[0], ldb, beta, &c[1], ldc);
	gemm<T>(ta, tb, m, n, k, alpha, &a0[0], lda, &b0[0], ldb, beta, &c0[1], ldc);
	for (Sz i = 0; i < a.size(); ++i)
		psx_assert(same(a[i], a0[i]), "the first operand is not modified");
	for (Sz i = 0; i < b.size(); ++i)
		psx_assert(same(b[i], b0[i]), "the second operand is not modified");
	for (Sz i = 0; i < c.size(); ++i) {
		psx_assert(same(c[i], c0[i]), "the result is the one of the plain product and nothing else is written");
		obs(c[i]);
	}
}
// every size and block size
PSX_CASE(sizes)
{
	int m = psx_choose("m", PSX_T(8, 12)), n = psx_choose("n", PSX_T(8, 12));
	Sz nb = psx_choose("nb", PSX_T(5, 8));
	run<double>(m, n, 1, nb, 1, 'N', 'N', 7, 3);
}
PSX_CASE(transposed)
{
	int k = psx_choose("k", 3);
	char ta = g_trans[psx_choose("transA", 6)], tb = g_trans[psx_choose("transB", 6)];
	int n = 2 + psx_choose("n", 2);
	Sz nb = 1 + psx_choose("nb", 2);
	int spare = psx_choose("spare", PSX_T(2, 8)) * PSX_T(7, 1);
	run<double>(3, n, k, nb, 1, ta, tb, spare, 3);
}
PSX_CASE(complex)
{
	char ta = g_trans[psx_choose("transA", 3)], tb = g_trans[psx_choose("transB", 3)];
	Sz nb = 1 + psx_choose("nb", 2), t = 1 + psx_choose("threads", 2);
	run<Cx>(2, 3, 2, nb, t, ta, tb, 5, 1);
}
PSX_CASE(threads)
{
	int m = 1 + psx_choose("m", PSX_T(4, 5)), n = 2 + psx_choose("n", 2);
	Sz nb = 1 + psx_choose("nb", 2), t = 2 + psx_choose("threads", 2);
	run<double>(m, n, 1, nb, t, 'N', 'T', 0, 2);
}
PSX_CASE(threads_three)
{
	int n = 2 + psx_choose("n", 2);
	Sz nb = 1 + psx_choose("nb", 2);
	run<double>(3, n, 1, nb, 3, 'T', 'N', 5, 2);
}

// larger products in whole and ragged blocks
template <typename T>
static void big(int m, int n, int k, Sz nb, Sz threads, char ta, char tb)
{
	int ra = trans(ta) == 'N' ? m : k, ca = trans(ta) == 'N' ? k : m;
	int rb = trans(tb) == 'N' ? k : n, cb = trans(tb) == 'N' ? n : k;
	int lda = ra + 1, ldb = rb, ldc = m + 2;
	std::vector<T> a = bigVec<T>(lda * ca, 1, 1), b = bigVec<T>(ldb * cb, 2, 1), c = bigVec<T>(ldc * n + 2, 3, 1), c0 = c, a0 = a, b0 = b;
	T alpha(2), beta(-1);
	GemmR<T> g(false, nb, threads);
	g(ta, tb, m, n, k, alpha, &a[0], lda, &b[0], ldb, beta, &c[1], ldc);
	gemm<T>(ta, tb, m, n, k, alpha, &a0[0], lda, &b0[0], ldb, beta, &c0[1], ldc);
	checkIs(a, a0, "the first operand is not modified");
	checkIs(b, b0, "the second operand is not modified");
	checkIs(c, c0, "the result is the one of the plain product and nothing else is written");
}
PSX_CASE(large)
{
	static const int sizes[][3] = { { 33, 17, 9 }, { 16, 40, 3 }, { 64, 5, 2 }, { 3, 70, 20 } };
	const int* s = sizes[psx_choose("size", 4)];
	static const Sz blocks[] = { 0, 7, 8, 32 };
	Sz nb = blocks[psx_choose("nb", 4)];
	char ta = "NTC"[psx_choose("transA", 3)], tb = "NTC"[psx_choose("transB", 3)];
	big<double>(s[0], s[1], s[2], nb, 1, ta, tb);
}
PSX_CASE(large_complex)
{
	Sz nb = psx_choose("nb", 2) ? 4 : 5;
	char ta = "NTC"[psx_choose("transA", 3)], tb = "NTC"[psx_choose("transB", 3)];
	big<Cx>(17, 12, 6, nb, 1, ta, tb);
}
