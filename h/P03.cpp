// P03: transpose-conjugate, equality and the structural tests of sparse and dense matrices.
//@ bounds: sparse matrices up to 3x2/2x3 (transpose; 3x3 thorough) and square up to 2x2 complex, 3x3 real for the tests; every pattern, every stored integer value in [-2,2] (parts, for complex), zero included; larger ones of fixed shape and pattern (tens of rows, hundreds of entries) with a few symbolic values; entries as small as 1/512 in the tests with a tolerance and near 1e-18 elsewhere; pairs of 4x4 and 13x13 matrices that differ in one entry, its value, column or row; a single entry of eight sizes from the least number to the largest
//@ case large_adjoint max_instr=60000000
//@ case large_adjoint_complex max_instr=60000000
//@ case large_tests max_instr=60000000
//@ case large_tests_complex max_instr=60000000
#include "mat.h"
using namespace PsimagLite;

template <typename T>
static void adjoint(Sz r, Sz c)
{
	D<T> d(0, 0);
	CrsMatrix<T> a = symSparse<T>(r, c, d, true);
	CrsMatrix<T> b, back;
	if (psx_choose("used", 2))
		b.makeDiagonal(3, T(1));
	transposeConjugate(b, a);
	D<T> e(c, r);
	for (Sz i = 0; i < r; ++i)
		for (Sz j = 0; j < c; ++j)
			e(j, i) = cj(d(i, j));
	checkIs(b, e, "transpose conjugate");
	checkIs(a, d, "operand unmodified");
	transposeConjugate(back, b);
	checkIs(back, d, "applied twice");
	for (Sz i = 0; i < b.nonZeros(); ++i)
		obs(b.getValue(i));
}
PSX_CASE(adjoint_real)
{
	switch (psx_choose("shape", 5)) {
	case 0: adjoint<double>(1, 3); break;
	case 1: adjoint<double>(3, 1); break;
	case 2: adjoint<double>(2, 3); break;
	case 3: adjoint<double>(3, 2); break;
	default: adjoint<double>(2, 2); break;
	}
}
PSX_CASE(adjoint_complex)
{
	if (psx_choose("shape", 2))
		adjoint<Cx>(2, 2);
	else
		adjoint<Cx>(3, 1);
}
#ifdef PSX_THOROUGH
PSX_CASE(adjoint_3) { adjoint<double>(3, 3); }
PSX_CASE(adjoint_complex_23) { adjoint<Cx>(2, 3); }
#endif

template <typename T>
static bool isH(const D<T>& d, int sign)
{
	bool ok = true;
	for (Sz i = 0; i < d.r; ++i)
		for (Sz j = 0; j < d.c; ++j)
			ok = ok & same(d(i, j), sign > 0 ? cj(d(j, i)) : -cj(d(j, i)));
	return ok;
}
template <typename T>
static bool isId(const D<T>& d, bool ones)
{
	bool ok = true;
	for (Sz i = 0; i < d.r; ++i)
		for (Sz j = 0; j < d.c; ++j)
			if (i != j)
				ok = ok & same(d(i, j), T(0));
			else if (ones)
				ok = ok & same(d(i, j), T(1));
	return ok;
}
template <typename T>
static bool isZ(const D<T>& d)
{
	bool ok = true;
	for (Sz i = 0; i < d.d.size(); ++i)
		ok = ok & same(d.d[i], T(0));
	return ok;
}
template <typename T>
static T sumSq(const D<T>& d)
{
	T s = 0;
	for (Sz i = 0; i < d.d.size(); ++i)
		s += cj(d.d[i]) * d.d[i];
	return s;
}
inline double re(double x) { return x; }
inline double re(const Cx& x) { return x.real(); }

template <typename T>
static void tests(Sz n, Sz what, int lo, int hi)
{
	D<T> d(0, 0);
	CrsMatrix<T> a = symSparse<T>(n, n, d, false, lo, hi);
	switch (what) {
	case 0: psx_assert(isHermitian(a) == isH(d, 1), "hermiticity test"); break;
	case 1: psx_assert(isAntiHermitian(a) == isH(d, -1), "antihermiticity test"); break;
	case 2: psx_assert(isDiagonal(a) == isId(d, false), "diagonal test"); break;
	case 3: psx_assert(isTheIdentity(a) == isId(d, true), "identity test"); break;
	case 4: psx_assert(isZero(a) == isZ(d), "zero test"); break;
	default: psx_assert(norm2(a) == re(sumSq(d)), "squared norm"); break;
	}
	checkIs(a, d, "operand unmodified");
}
PSX_CASE(tests_real) { tests<double>(2, psx_choose("what", 6), -2, 2); }
PSX_CASE(tests_complex) { tests<Cx>(2, psx_choose("what", 4), -1, 1); }
PSX_CASE(tests_one)
{
	Sz w = psx_choose("what", 6);
	tests<double>(1, w, -3, 3);
}
PSX_CASE(tests_3) { tests<double>(3, psx_choose("what", 6), PSX_T(0, -1), 1); }
PSX_CASE(zero_complex) { tests<Cx>(PSX_T(1, 2), 4 + psx_choose("what", 2), -1, 1); }
// no non-square matrix is hermitian, diagonal or the identity
PSX_CASE(non_square)
{
	D<double> d(0, 0);
	Sz r = 1 + psx_choose("r", 3), c = 1 + psx_choose("c", 3);
	psx_assume(r != c && r * c <= 3);
	CrsMatrix<double> a = symSparse<double>(r, c, d);
	psx_assert(!isHermitian(a) && !isAntiHermitian(a) && !isDiagonal(a) && !isTheIdentity(a), "a non-square matrix is none of these");
}
// equality: the same structure and the same values
PSX_CASE(equality)
{
	D<double> da(0, 0), db(0, 0);
	Sz k = psx_choose("shape", 3);
	CrsMatrix<double> a = symSparse<double>(k == 0 ? 2 : 1, 2, da), b = symSparse<double>(k == 2 ? 2 : 1, k == 1 ? 1 : 2, db);
	bool eq = a == b;
	bool structure = a.rows() == b.rows() && a.cols() == b.cols() && a.nonZeros() == b.nonZeros();
	if (structure) {
		for (Sz i = 0; i <= a.rows(); ++i)
			structure &= a.getRowPtr(i) == b.getRowPtr(i);
		for (Sz i = 0; i < a.nonZeros(); ++i)
			structure &= a.getCol(i) == b.getCol(i);
	}
	bool vals = structure;
	if (structure)
		for (Sz i = 0; i < a.nonZeros(); ++i)
			vals = vals & (a.getValue(i) == b.getValue(i));
	psx_assert(eq == vals, "equality");
}
// equal but for one entry, of another value, column, row or left out
PSX_CASE(nearly_equal)
{
	Sz n = psx_choose("size", 2) ? 4 : 13, what = psx_choose("what", 5), k = psx_choose("entry", n);
	Matrix<double> a(n, n);
	for (Sz i = 0; i < n; ++i)
		a(i, (i * 3 + 1) % n) = a(i, i) = i + 1;
	double x = psx_dbl("x", 1, 9);
	a(k, k) = x;
	Matrix<double> b = a;
	bool same = what == 0;
	if (what == 1) {
		double y = psx_dbl("y", 1, 9);
		b(k, k) = y;
		same = x == y;
	} else if (what == 2) {
		Sz j = psx_choose("column", n);
		psx_assume(b(k, j) == 0);
		b(k, k) = 0;
		b(k, j) = x;
	} else if (what == 3) {
		Sz i = (k + 1) % n;
		psx_assume(b(i, k) == 0);
		b(k, k) = 0;
		b(i, k) = x;
	} else if (what == 4) {
		b(k, k) = 0;
	}
	CrsMatrix<double> p(a), q(b);
	psx_assert((p == q) == same && (q == p) == same, "equality");
}
// dense tests of the same name
template <typename T>
static void denseTests(Sz n, Sz what, int lo, int hi)
{
	D<T> d = symDense<T>(n, n, lo, hi);
	Matrix<T> a = toMatrix(d);
	switch (what) {
	case 0: psx_assert(isHermitian(a) == isH(d, 1), "dense hermiticity test"); break;
	case 1: psx_assert(isAntiHermitian(a) == isH(d, -1), "dense antihermiticity test"); break;
	case 2: psx_assert(isTheIdentity(a) == isId(d, true), "dense identity test"); break;
	default: psx_assert(isZero(a) == isZ(d), "dense zero test"); break;
	}
}
PSX_CASE(dense_real)
{
	Sz n = 1 + psx_choose("n", 2);
	denseTests<double>(n, psx_choose("what", 4), -2, 2);
}
PSX_CASE(dense_complex) { denseTests<Cx>(2, psx_choose("what", 4), -1, 1); }
PSX_CASE(dense_3) { denseTests<double>(3, psx_choose("what", 4), -1, 1); }

// larger matrices
template <typename T>
static void big(Sz r, Sz c, unsigned sparse)
{
	D<T> d(0, 0), e(c, r);
	CrsMatrix<T> a = bigSparse<T>(r, c, d, r + c, sparse, 2, psx_choose("back", 2)), b, back;
	transposeConjugate(b, a);
	for (Sz i = 0; i < r; ++i)
		for (Sz j = 0; j < c; ++j)
			e(j, i) = cj(d(i, j));
	checkIs(b, e, "transpose conjugate");
	transposeConjugate(back, b);
	checkIs(back, d, "applied twice");
	checkIs(a, d, "operand unmodified");
	if (sparse < 10)
		checkIs(transposeConjugate(toMatrix(d)), e, "dense transpose conjugate");
}
PSX_CASE(large_adjoint)
{
	if (psx_choose("shape", 2))
		big<double>(26, 17, 3);
	else
		big<double>(65, 65, 40);
}
PSX_CASE(large_adjoint_complex) { big<Cx>(13, 19, 3); }
// one arbitrary element (and for the symmetric ones, one more) of a large matrix that otherwise is symmetric, diagonal and so on
template <typename T>
static void bigTests(Sz n)
{
	Lcg g(n);
	Sz what = psx_choose("what", 5);
	D<T> d(n, n);
	for (Sz i = 0; i < n; ++i)
		for (Sz j = 0; j <= i; ++j) {
			T v;
			lcgValue(g, v);
			if (what < 2) {
				if (g(2))
					continue;
				d(i, j) = v;
				if (i == j)
					d(i, j) = what ? v - cj(v) : v + cj(v);
				else
					d(j, i) = what ? -cj(v) : cj(v);
			} else if (i == j && what < 4) {
				d(i, j) = what == 2 ? v : T(1);
			}
		}
	static const Sz at[] = { 0, 1, 5, n - 2, n - 1 };
	Sz i = at[psx_choose("i", 5)], j = at[psx_choose("j", 5)];
	T x;
	symValue(x, -3, 3);
	d(i, j) = x;
	if (psx_choose("empty row", 2))
		for (Sz k = 0; k < n; ++k)
			d(2, k) = d(k, 2) = T(0);
	CrsMatrix<T> a(n, n);
	Sz counter = 0;
	for (Sz p = 0; p < n; ++p) {
		a.setRow(p, counter);
		for (Sz q = 0; q < n; ++q)
			if ((p == i && q == j) || !same(d(p, q), T(0))) {
				a.pushCol(q);
				a.pushValue(d(p, q));
				++counter;
			}
	}
	a.setRow(n, counter);
	Matrix<T> m = toMatrix(d);
	bool herm = isH(d, 1), anti = isH(d, -1), diag = isId(d, false), one = isId(d, true), zero = isZ(d);
	psx_assert(isHermitian(a) == herm && isHermitian(m) == herm, "hermiticity test");
	psx_assert(isAntiHermitian(a) == anti && isAntiHermitian(m) == anti, "antihermiticity test");
	psx_assert(isDiagonal(a) == diag, "diagonal test");
	psx_assert(isTheIdentity(a) == one && isTheIdentity(m) == one, "identity test");
	psx_assert(isZero(a) == zero && isZero(m) == zero, "zero test");
	psx_assert(norm2(a) == re(sumSq(d)), "squared norm");
	CrsMatrix<T> b(a);
	psx_assert(b == a, "equality");
	if (counter) {
		b.setValues(counter - 1, b.getValue(counter - 1) + T(1));
		psx_assert(!(b == a), "another value");
	}
}
PSX_CASE(large_tests) { bigTests<double>(17); }
PSX_CASE(large_tests_complex) { bigTests<Cx>(9); }

// smaller numbers: nothing that matters is taken for zero
PSX_CASE(small_adjoint)
{
	unit() = 1. / (1ul << 60);
	psx_choose("kind", 2) ? adjoint<Cx>(1, 2) : adjoint<double>(2, 2);
}
PSX_CASE(small_tests)
{
	static const Sz what[] = { 0, 1, 2, 5 };
	unit() = 1. / 512;
	Sz w = what[psx_choose("what", 4)];
	psx_choose("kind", 2) ? tests<Cx>(2, w, -1, 1) : tests<double>(2, w, -1, 1);
}
PSX_CASE(small_zero)
{
	unit() = 1. / (1ul << 60);
	psx_choose("kind", 2) ? tests<Cx>(1, 4, -1, 1) : tests<double>(2, 4, -1, 1);
}
PSX_CASE(small_dense_tests)
{
	static const Sz what[] = { 0, 1, 3 };
	unit() = 1. / 512;
	Sz w = what[psx_choose("what", 3)];
	psx_choose("kind", 2) ? denseTests<Cx>(2, w, -1, 1) : denseTests<double>(2, w, -1, 1);
}
template <typename T>
static void nearIdentity()
{
	D<T> d(3, 3);
	Sz i = psx_choose("row", 3), j = psx_choose("column", 3);
	for (Sz k = 0; k < 3; ++k)
		d(k, k) = 1;
	unit() = 1. / 512;
	T v;
	symValue(v, -2, 2);
	d(i, j) += v;
	Matrix<T> m = toMatrix(d);
	CrsMatrix<T> a(m);
	psx_assert(isTheIdentity(m) == isId(d, true), "dense identity test near the identity");
	psx_assert(isTheIdentity(a) == isId(d, true), "identity test near the identity");
	psx_assert(isDiagonal(a) == isId(d, false), "diagonal test near the identity");
}
PSX_CASE(near_identity) { psx_choose("kind", 2) ? nearIdentity<Cx>() : nearIdentity<double>(); }

// a single entry of any size
template <typename T>
static void oneEntry()
{
	static const double all[] = { 0, 4.9406564584124654e-324, -1e-308, 1e-170, -3e-17, 1e-9, -1e200, 1.7976931348623157e308 };
	D<T> d(2, 2);
	double x = all[psx_choose("size", 8)];
	T v = x;
	if (psx_choose("turned", 2))
		v *= T(-1);
	d.d[psx_choose("place", 4)] = v;
	Matrix<T> m = toMatrix(d);
	CrsMatrix<T> a(2, 2), b;
	for (Sz i = 0; i < 2; ++i) {
		a.setRow(i, 2 * i);
		for (Sz j = 0; j < 2; ++j) {
			a.pushCol(j);
			a.pushValue(d(i, j));
		}
	}
	a.setRow(2, 4);
	psx_assert(isZero(m) == (x == 0), "dense zero test of an entry of any size");
	psx_assert(isZero(a) == (x == 0), "zero test of an entry of any size");
	transposeConjugate(b, a);
	D<T> e(2, 2);
	for (Sz i = 0; i < 4; ++i)
		e(i % 2, i / 2) = cj(d(i / 2, i % 2));
	checkIs(b, e, "transpose conjugate of an entry of any size");
	psx_observe(isZero(m));
}
PSX_CASE(one_entry) { psx_choose("kind", 2) ? oneEntry<Cx>() : oneEntry<double>(); }
