// P04: Kronecker products and embeddings of sparse matrices.
//@ bounds: factors up to 2x2 (3x3 with an identity; thorough), every pattern, stored integer values in [-3,3] real (parts in [-2,2] complex), signs arbitrary integers in [-2,2], identity size up to 3, every permutation of up to 4 indices (quick: identity, reversal and a cycle for 6); blocks up to 2x2 in matrices up to 4x4 at every offset; larger ones of fixed shape and pattern (tens of rows, hundreds of entries) with a few symbolic values; numbers near 1e-18 too
//@ case large_real max_instr=60000000
//@ case large_complex max_instr=60000000
#include "mat.h"
using namespace PsimagLite;
typedef Vector<SizeType>::Type VecS;

static VecS permutation(Sz n, bool all)
{
	VecS p(n);
	if (all) {
		std::vector<char> used(n, 0);
		for (Sz i = 0; i < n; ++i) {
			Sz k = psx_choose("perm", n - i);
			Sz j = 0;
			for (;; ++j) {
				if (used[j])
					continue;
				if (k == 0)
					break;
				--k;
			}
			used[j] = 1;
			p[i] = j;
		}
		return p;
	}
	Sz k = psx_choose("perm", 3);
	for (Sz i = 0; i < n; ++i)
		p[i] = k == 0 ? i : k == 1 ? n - 1 - i : (2 + i) % n;
	return p;
}
template <typename T>
static void withIdentity(Sz na, Sz nout, bool allPerms, int lo, int hi)
{
	D<T> da(0, 0);
	CrsMatrix<T> a = symSparse<T>(na, na, da, true, lo, hi);
	bool order = psx_choose("A fastest", 2);
	std::vector<double> signs(order ? na : nout); // one sign per state of the outer space when A is the slow factor
	for (Sz i = 0; i < signs.size(); ++i)
		signs[i] = psx_dbl("sign", -2, 2);
	VecS perm = permutation(na * nout, allPerms);
	CrsMatrix<T> b;
	if (psx_choose("used", 2))
		b.makeDiagonal(3, T(1));
	externalProduct(b, a, nout, signs, order, perm);
	D<T> e(na * nout, na * nout);
	for (Sz i = 0; i < na; ++i)
		for (Sz j = 0; j < na; ++j)
			for (Sz k = 0; k < nout; ++k) {
				Sz row = order ? i + k * na : k + i * nout;
				Sz col = order ? j + k * na : k + j * nout;
				e(perm[row], perm[col]) = order ? da(i, j) : da(i, j) * signs[k];
			}
	checkIs(b, e, "product with the identity");
	checkIs(a, da, "operand unmodified");
	for (Sz i = 0; i < b.nonZeros(); ++i)
		obs(b.getValue(i));
}
PSX_CASE(identity_2x2) { withIdentity<double>(2, 2, true, -3, 3); }
PSX_CASE(identity_small)
{
	Sz k = psx_choose("k", 3);
	withIdentity<double>(k == 2 ? 2 : 1, k == 0 ? 3 : 1, true, -3, 3);
}
PSX_CASE(identity_2x3) { withIdentity<double>(2, 3, false, -3, 3); }
PSX_CASE(identity_complex) { withIdentity<Cx>(2, 2, false, -2, 2); }
PSX_CASE(identity_3x2) { withIdentity<double>(3, 2, false, -3, 3); }

template <typename T>
static void twoFactors(Sz na, Sz nb, bool allPerms, int lo, int hi)
{
	D<T> da(0, 0), db(0, 0);
	CrsMatrix<T> a = symSparse<T>(na, na, da, false, lo, hi), b = symSparse<T>(nb, nb, db, false, lo, hi);
	bool order = psx_choose("A fastest", 2);
	Sz fast = order ? na : nb;
	std::vector<double> signs(fast);
	for (Sz i = 0; i < signs.size(); ++i)
		signs[i] = psx_dbl("sign", -2, 2);
	VecS perm = permutation(na * nb, allPerms);
	CrsMatrix<T> c;
	externalProduct(c, a, b, signs, order, perm);
	D<T> e(na * nb, na * nb);
	for (Sz i1 = 0; i1 < na; ++i1)
		for (Sz j1 = 0; j1 < na; ++j1)
			for (Sz i2 = 0; i2 < nb; ++i2)
				for (Sz j2 = 0; j2 < nb; ++j2) {
					Sz row = order ? i1 + i2 * na : i2 + i1 * nb;
					Sz col = order ? j1 + j2 * na : j2 + j1 * nb;
					e(perm[row], perm[col]) = da(i1, j1) * db(i2, j2) * signs[order ? i1 : i2];
				}
	checkIs(c, e, "product of two matrices");
	checkIs(a, da, "first operand unmodified");
	checkIs(b, db, "second operand unmodified");
	for (Sz i = 0; i < c.nonZeros(); ++i)
		obs(c.getValue(i));
}
PSX_CASE(factors_2x2) { twoFactors<double>(2, 2, PSX_T(false, true), -2, 2); }
PSX_CASE(factors_1x2)
{
	Sz k = psx_choose("k", 3);
	twoFactors<double>(k == 0 ? 1 : k == 1 ? 2 : 1, k == 0 ? 2 : 1, true, -2, 2);
}
PSX_CASE(factors_complex) { twoFactors<Cx>(1, 2, true, -2, 2); }
PSX_CASE(factors_1x3)
{
	if (psx_choose("k", 2))
		twoFactors<double>(1, 3, true, -2, 2);
	else
		twoFactors<double>(3, 1, true, -2, 2);
}

PSX_CASE(block)
{
	Sz r = 1 + psx_choose("block", 2), n = 1 + psx_choose("full", 4);
	Sz off = psx_choose("offset", 4);
	psx_assume(off + r <= n);
	D<double> db(0, 0), d0(0, 0);
	CrsMatrix<double> b = symSparse<double>(r, r, db, true);
	CrsMatrix<double> full(n, n);
	if (psx_choose("used", 2))
		full.makeDiagonal(n, 3.0);
	fromBlockToFull(full, b, off);
	D<double> e(n, n);
	for (Sz i = 0; i < r; ++i)
		for (Sz j = 0; j < r; ++j)
			e(i + off, j + off) = db(i, j);
	checkIs(full, e, "embedded block");
	checkIs(b, db, "operand unmodified");
	for (Sz i = 0; i < full.nonZeros(); ++i)
		obs(full.getValue(i));
}
PSX_CASE(block_rect)
{
	Sz k = psx_choose("k", 2), off = psx_choose("offset", 2);
	D<double> db(0, 0);
	CrsMatrix<double> b = symSparse<double>(k ? 1 : 2, k ? 2 : 1, db);
	CrsMatrix<double> full(3, 4);
	fromBlockToFull(full, b, off);
	D<double> e(3, 4);
	for (Sz i = 0; i < db.r; ++i)
		for (Sz j = 0; j < db.c; ++j)
			e(i + off, j + off) = db(i, j);
	checkIs(full, e, "embedded block");
}

// larger factors
static VecS bigPermutation(Sz n)
{
	VecS p(n);
	Lcg g(n);
	bool id = psx_choose("identity", 2);
	for (Sz i = 0; i < n; ++i)
		p[i] = i;
	if (!id)
		for (Sz i = n; i > 1; --i)
			std::swap(p[i - 1], p[g(i)]);
	return p;
}
template <typename T>
static void bigFactors(Sz na, Sz nb)
{
	D<T> da(0, 0), db(0, 0);
	CrsMatrix<T> a = bigSparse<T>(na, na, da, 1, 2, 1, psx_choose("back", 2)), b = bigSparse<T>(nb, nb, db, 2, 2, 1);
	bool order = psx_choose("A fastest", 2);
	Sz fast = order ? na : nb;
	std::vector<double> signs(fast), signs2(order ? na : nb);
	for (Sz i = 0; i < signs.size(); ++i)
		signs[i] = i == 1 ? psx_dbl("sign", -1, 2) : i % 3 ? 1 : -1;
	VecS perm = bigPermutation(na * nb);
	CrsMatrix<T> c, c2;
	externalProduct(c, a, b, signs, order, perm);
	D<T> e(na * nb, na * nb), e2(na * nb, na * nb);
	for (Sz i1 = 0; i1 < na; ++i1)
		for (Sz j1 = 0; j1 < na; ++j1)
			for (Sz i2 = 0; i2 < nb; ++i2)
				for (Sz j2 = 0; j2 < nb; ++j2) {
					Sz row = perm[order ? i1 + i2 * na : i2 + i1 * nb];
					Sz col = perm[order ? j1 + j2 * na : j2 + j1 * nb];
					e(row, col) = da(i1, j1) * db(i2, j2) * signs[order ? i1 : i2];
					if (i2 == j2)
						e2(row, col) = order ? da(i1, j1) : da(i1, j1) * signs[i2];
				}
	checkIs(c, e, "product of two matrices");
	externalProduct(c2, a, nb, signs, order, perm);
	checkIs(c2, e2, "product with the identity");
	checkIs(a, da, "first operand unmodified");
	checkIs(b, db, "second operand unmodified");
	CrsMatrix<T> full(na * nb, na * nb);
	Sz off = psx_choose("offset", 2) ? na * nb - na : 3;
	fromBlockToFull(full, a, off);
	D<T> e3(na * nb, na * nb);
	for (Sz i = 0; i < na; ++i)
		for (Sz j = 0; j < na; ++j)
			e3(i + off, j + off) = da(i, j);
	checkIs(full, e3, "embedded block");
}
PSX_CASE(large_real)
{
	if (psx_choose("k", 2))
		bigFactors<double>(5, 7);
	else
		bigFactors<double>(7, 4);
}
PSX_CASE(large_complex) { bigFactors<Cx>(5, 4); }

// numbers near 1e-18 count
PSX_CASE(tiny)
{
	unit() = 1. / (1ul << 60);
	switch (psx_choose("what", 3)) {
	case 0: withIdentity<double>(2, 2, true, -3, 3); break;
	case 1: twoFactors<double>(1, 2, true, -2, 2); break;
	default: twoFactors<Cx>(1, 1, true, -2, 2);
	}
}
