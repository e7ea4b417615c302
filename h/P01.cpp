// P01: sparse arithmetic against dense arithmetic.
//@ bounds: sums: real and complex matrices up to 2x2 (thorough 3x2); products up to 2x3 by 3x2 (thorough 3x2 by 2x3); matrix-vector 3x3, every sparsity pattern, stored entries arbitrary integers in [-3,3] (parts, for complex), zero included; columns stored in both directions; weights in [-3,3]; larger ones of fixed shape and pattern (tens of rows, hundreds of entries) with a few symbolic values; sums and products also with numbers near 1e-18; scalings by an entry of the destination itself, every entry and shape or length up to 3 (sparse 2x2)
//@ case large_sparse max_instr=60000000
//@ case large_flat max_instr=60000000
//@ case large_real max_instr=60000000
//@ case large_complex max_instr=60000000
#include "mat.h"
using namespace PsimagLite;

template <typename T>
static void plusCase(Sz r1, Sz c1, Sz r2, Sz c2)
{
	D<T> da(0, 0), db(0, 0);
	CrsMatrix<T> a = symSparse<T>(r1, c1, da), b = symSparse<T>(r2, c2, db, true);
	T s, t;
	symValue(s, -3, 3);
	symValue(t, -3, 3);
	CrsMatrix<T> x;
	const T cs = s, ct = t;
	operatorPlus(x, a, cs, b, ct);
	checkIs(x, dcomb(da, s, db, t), "weighted sum");
	checkIs(a, da, "first operand unmodified");
	checkIs(b, db, "second operand unmodified");
	for (Sz i = 0; i < x.nonZeros(); ++i)
		obs(x.getValue(i));
}
PSX_CASE(plus_real) { plusCase<double>(2, 2, 2, 2); }
PSX_CASE(plus_complex) { plusCase<Cx>(1, 2, 1, 2); }
PSX_CASE(plus_larger_first)
{
	Sz k = psx_choose("shape", 3);
	plusCase<double>(k == 0 ? 3 : 2, k == 0 ? 1 : k == 1 ? 3 : 2, k == 2 ? 2 : 1, k == 2 ? 1 : 1);
}
PSX_CASE(plus_larger_second)
{
	if (psx_choose("shape", 2))
		plusCase<double>(1, 3, 2, 2);
	else
		plusCase<double>(1, 1, 2, 2);
}
#ifdef PSX_THOROUGH
PSX_CASE(plus_3) { plusCase<double>(3, 2, 3, 2); }
PSX_CASE(plus_complex_2) { plusCase<Cx>(2, 2, 2, 2); }
#endif

template <typename T>
static void sumCase(Sz r, Sz c, Sz n)
{
	std::vector<D<T>> d;
	std::vector<CrsMatrix<T>> m(n);
	std::vector<const CrsMatrix<T>*> p(n);
	std::vector<T> w(n);
	for (Sz i = 0; i < n; ++i) {
		D<T> x(0, 0);
		m[i] = symSparse<T>(r, c, x);
		d.push_back(x);
		symValue(w[i], -3, 3);
	}
	for (Sz i = 0; i < n; ++i)
		p[i] = &m[i];
	CrsMatrix<T> a;
	if (psx_choose("used", 2))
		a.makeDiagonal(3, 1.0);
	sum(a, p, w);
	D<T> e(r, c);
	for (Sz i = 0; i < n; ++i)
		e = dcomb(e, T(1), d[i], w[i]);
	checkIs(a, e, "sum of several matrices");
	for (Sz i = 0; i < n; ++i)
		checkIs(m[i], d[i], "operand unmodified");
}
PSX_CASE(sum_three) { sumCase<double>(2, 2, PSX_T(2, 3)); }
PSX_CASE(sum_row) { sumCase<double>(1, 3, 3); }
PSX_CASE(sum_complex) { sumCase<Cx>(1, 2, 3); }

template <typename T>
static void inPlace(Sz n)
{
	D<T> da(0, 0), db(0, 0);
	CrsMatrix<T> a = symSparse<T>(n, n, da, true), b = symSparse<T>(n, n, db);
	T s;
	symValue(s, -3, 3);
	switch (psx_choose("op", 3)) {
	case 0:
		a += b;
		checkIs(a, dcomb(da, T(1), db, T(1)), "in-place add");
		break;
	case 1:
		a += s * b;
		checkIs(a, dcomb(da, T(1), db, s), "in-place weighted add");
		break;
	default: {
		a *= s;
		checkIs(a, dscale(da, s), "in-place scaling");
		break;
	}
	}
	checkIs(b, db, "operand unmodified");
	for (Sz i = 0; i < a.nonZeros(); ++i)
		obs(a.getValue(i));
}
PSX_CASE(inplace_real) { inPlace<double>(2); }
PSX_CASE(inplace_complex)
{
	inPlace<Cx>(1);
}
// the smaller square matrix on either side of += stands in the upper left corner
PSX_CASE(inplace_sizes)
{
	Sz k = psx_choose("k", 2);
	D<double> da(0, 0), db(0, 0);
	CrsMatrix<double> a = symSparse<double>(k ? 2 : 1, k ? 2 : 1, da), b = symSparse<double>(k ? 1 : 2, k ? 1 : 2, db);
	a += b;
	checkIs(a, dcomb(da, 1.0, db, 1.0), "in-place add of another size");
}
// complex matrix, real weight
PSX_CASE(inplace_mixed)
{
	D<Cx> da(0, 0), db(0, 0);
	CrsMatrix<Cx> a = symSparse<Cx>(1, 1, da), b = symSparse<Cx>(1, 1, db);
	double s = psx_dbl("s", -3, 3);
	a += s * b;
	checkIs(a, dcomb(da, Cx(1), db, Cx(s)), "real multiple of a complex matrix added");
}

template <typename T, typename T2>
static void prodCase(Sz n, Sz k, Sz m, bool shuffle)
{
	D<T> da(0, 0);
	D<T2> db(0, 0);
	CrsMatrix<T> a = symSparse<T>(n, k, da, shuffle);
	CrsMatrix<T2> b = symSparse<T2>(k, m, db, shuffle);
	CrsMatrix<T> x;
	if (psx_choose("used", 2))
		x.makeDiagonal(3, 1.0);
	multiply(x, a, b);
	D<T> e(n, m);
	for (Sz i = 0; i < n; ++i)
		for (Sz j = 0; j < m; ++j)
			for (Sz l = 0; l < k; ++l)
				e(i, j) += da(i, l) * db(l, j);
	checkIs(x, e, "product");
	checkIs(a, da, "first operand unmodified");
	checkIs(b, db, "second operand unmodified");
	for (Sz i = 0; i < x.nonZeros(); ++i)
		obs(x.getValue(i));
}
PSX_CASE(product_2) { prodCase<double, double>(2, 2, 2, true); }
PSX_CASE(product_rect)
{
	switch (psx_choose("shape", 4)) {
	case 0: prodCase<double, double>(1, 3, 2, false); break;
	case 1: prodCase<double, double>(2, 1, 3, false); break;
	case 2: prodCase<double, double>(3, 2, 1, false); break;
	default: prodCase<double, double>(2, 2, 1, true); break;
	}
}
PSX_CASE(product_complex) { prodCase<Cx, Cx>(1, 2, 2, false); }
PSX_CASE(product_mixed) { prodCase<Cx, double>(1, 2, 1, false); }
PSX_CASE(product_232) { prodCase<double, double>(2, 3, 2, false); }
PSX_CASE(product_complex_222) { prodCase<Cx, Cx>(2, 2, 2, false); }
#ifdef PSX_THOROUGH
PSX_CASE(product_323) { prodCase<double, double>(3, 2, 3, false); }
PSX_CASE(product_222_complex_shuffled) { prodCase<Cx, Cx>(2, 2, 2, true); }
#endif

// lazy expressions
template <typename T>
static void exprCase(Sz n)
{
	D<T> da(0, 0), db(0, 0), dx(0, 0);
	CrsMatrix<T> a = symSparse<T>(n, n, da), b = symSparse<T>(n, n, db);
	T s;
	symValue(s, -3, 3);
	switch (psx_choose("op", 4)) {
	case 0: {
		CrsMatrix<T> x(a * b);
		checkIs(x, dmul(da, db), "constructed from a product");
		break;
	}
	case 1: {
		CrsMatrix<T> x;
		x.makeDiagonal(n + 1, T(2));
		x = s * a;
		checkIs(x, dscale(da, s), "assigned a multiple");
		break;
	}
	case 2: {
		CrsMatrix<T> x(s * a);
		checkIs(x, dscale(da, s), "constructed from a multiple");
		break;
	}
	default: {
		CrsMatrix<T> x;
		x = a * b;
		checkIs(x, dmul(da, db), "assigned a product");
		break;
	}
	}
	checkIs(a, da, "first operand unmodified");
	checkIs(b, db, "second operand unmodified");
}
PSX_CASE(expressions_real) { exprCase<double>(2); }
PSX_CASE(expressions_complex) { exprCase<Cx>(PSX_T(1, 2)); }
// x += s*a*b
template <typename T>
static void scaledProduct(Sz n)
{
	D<T> da(0, 0), db(0, 0), dx(0, 0);
	CrsMatrix<T> a = symSparse<T>(n, n, da), b = symSparse<T>(n, n, db);
	CrsMatrix<T> x(n, n);
	D<T> dfull(n, n);
	if (psx_choose("dest", 2)) {
		x = symSparse<T>(n, n, dx, false, -3, 3, true);
		dfull = dx;
	}
	T s;
	symValue(s, -3, 3);
	x += s * a * b;
	checkIs(x, dcomb(dfull, T(1), dmul(da, db), s), "scaled product added");
}
PSX_CASE(scaled_product) { scaledProduct<double>(2); }
PSX_CASE(scaled_product_complex) { scaledProduct<Cx>(1); }
// self assignment and aliasing in expressions
PSX_CASE(aliasing)
{
	D<double> da(0, 0);
	CrsMatrix<double> a = symSparse<double>(2, 2, da, true);
	double s = psx_dbl("s", -3, 3);
	switch (psx_choose("op", 5)) {
	case 0:
		a += a;
		checkIs(a, dscale(da, 2.0), "a += a");
		break;
	case 1:
		a = s * a;
		checkIs(a, dscale(da, s), "a = s*a");
		break;
	case 2:
		a += s * a;
		checkIs(a, dcomb(da, 1.0, da, s), "a += s*a");
		break;
	case 3:
		a = a * a;
		checkIs(a, dmul(da, da), "a = a*a");
		break;
	default:
		a += s * a * a;
		checkIs(a, dcomb(da, 1.0, dmul(da, da), s), "a += s*a*a");
		break;
	}
}

template <typename T>
static void matVec(Sz r, Sz c, bool acc)
{
	D<T> da(0, 0);
	CrsMatrix<T> a = symSparse<T>(r, c, da, true);
	std::vector<T> y = symVec<T>(c), y0 = y;
	std::vector<T> e(r, T(0)), x = symVec<T>(acc ? r : 2);
	if (acc)
		e = x;
	for (Sz i = 0; i < r; ++i)
		for (Sz j = 0; j < c; ++j)
			e[i] += da(i, j) * y[j];
	if (acc)
		a.matrixVectorProduct(x, y);
	else
		multiply(x, a, y);
	checkIs(x, e, "matrix times vector");
	checkIs(y, y0, "vector unmodified");
	checkIs(a, da, "matrix unmodified");
	for (Sz i = 0; i < x.size(); ++i)
		obs(x[i]);
}
PSX_CASE(matvec_real) { matVec<double>(3, 3, true); }
PSX_CASE(matvec_complex) { matVec<Cx>(2, 2, true); }
PSX_CASE(matvec_plain)
{
	switch (psx_choose("shape", 4)) {
	case 0: matVec<double>(2, 3, false); break;
	case 1: matVec<double>(3, 2, false); break;
	case 2: matVec<Cx>(1, 2, false); break;
	default: matVec<double>(1, 3, false); break;
	}
}
// a times the transpose conjugate of b
PSX_CASE(times_adjoint)
{
	D<Cx> da(0, 0), db(0, 0);
	CrsMatrix<Cx> a = symSparse<Cx>(1, 2, da), b = symSparse<Cx>(2, 2, db);
	D<Cx> bt(2, 2);
	for (Sz i = 0; i < 2; ++i)
		for (Sz j = 0; j < 2; ++j)
			bt(i, j) = cj(db(j, i));
	checkIs(multiplyTc(a, b), dmul(da, bt), "times adjoint");
}

// larger matrices
template <typename T>
static void big(Sz n, Sz k, Sz m, unsigned sparse)
{
	D<T> da(0, 0), db(0, 0), dc(0, 0);
	CrsMatrix<T> a = bigSparse<T>(n, k, da, 1, sparse), b = bigSparse<T>(k, m, db, 2, sparse, 2, true), c = bigSparse<T>(n, k, dc, 3, sparse, 1, true);
	T s, t;
	symValue(s, 1, 3);
	symValue(t, 5, 6);
	switch (psx_choose("op", 6)) {
	case 0: {
		CrsMatrix<T> x;
		operatorPlus(x, a, s, c, t);
		checkIs(x, dcomb(da, s, dc, t), "weighted sum");
		break;
	}
	case 1: {
		CrsMatrix<T> x;
		multiply(x, a, b);
		checkIs(x, dmul(da, db), "product");
		break;
	}
	case 2: {
		CrsMatrix<T> x(a * b);
		checkIs(x, dmul(da, db), "constructed from a product");
		break;
	}
	case 3: {
		std::vector<T> y = bigVec<T>(k, 5), x = bigVec<T>(n, 6), e = x, z(3, T(1)), f(n, T(0));
		for (Sz i = 0; i < n; ++i)
			for (Sz j = 0; j < k; ++j)
				f[i] += da(i, j) * y[j];
		for (Sz i = 0; i < n; ++i)
			e[i] += f[i];
		if (n == k)
			a.matrixVectorProduct(x, y);
		else
			x = e;
		checkIs(x, e, "matrix times vector added");
		multiply(z, a, y);
		checkIs(z, f, "matrix times vector");
		break;
	}
	case 4: {
		std::vector<const CrsMatrix<T>*> p { &a, &c, &a };
		std::vector<T> w { s, t, T(2) };
		CrsMatrix<T> x;
		sum(x, p, w);
		checkIs(x, dcomb(dcomb(da, s, dc, t), T(1), da, T(2)), "sum of several matrices");
		break;
	}
	default: {
		CrsMatrix<T> x(a);
		x *= s;
		checkIs(x, dscale(da, s), "in-place scaling");
		if (n != k)
			break;
		x = a;
		x += c;
		checkIs(x, dcomb(da, T(1), dc, T(1)), "in-place add");
		x += s * a;
		checkIs(x, dcomb(dcomb(da, T(1), dc, T(1)), T(1), da, s), "in-place weighted add");
		if (k == m) {
			x += t * c * b;
			checkIs(x, dcomb(dcomb(dcomb(da, T(1), dc, T(1)), T(1), da, s), T(1), dmul(dc, db), t), "scaled product added");
		}
		break;
	}
	}
	checkIs(a, da, "first operand unmodified");
	checkIs(b, db, "second operand unmodified");
	checkIs(c, dc, "third operand unmodified");
}
PSX_CASE(large_real) { psx_choose("square", 2) ? big<double>(20, 20, 20, 3) : big<double>(19, 21, 18, 3); }
PSX_CASE(large_complex) { big<Cx>(17, 17, 12, 3); }
PSX_CASE(large_sparse) { big<double>(66, 66, 66, 20); }
PSX_CASE(large_flat) { psx_choose("flat", 2) ? big<double>(2, 70, 3, 2) : big<double>(70, 2, 40, 2); }

// the same with numbers near 1e-18: nothing is too small to count
static void small() { unit() = 1. / (1ul << 60); }
PSX_CASE(tiny_sums)
{
	small();
	switch (psx_choose("what", 4)) {
	case 0: plusCase<double>(1, 2, 1, 2); break;
	case 1: plusCase<Cx>(1, 1, 1, 1); break;
	case 2: sumCase<double>(1, 2, 2); break;
	default: inPlace<double>(1);
	}
}
PSX_CASE(tiny_products)
{
	small();
	switch (psx_choose("what", 5)) {
	case 0: prodCase<double, double>(2, 2, 1, true); break;
	case 1: prodCase<Cx, Cx>(1, 2, 1, false); break;
	case 2: scaledProduct<double>(1); break;
	case 3: // the sums must stay exact
		unit() = 1. / (1 << 20);
		matVec<double>(2, 2, true);
		break;
	default: exprCase<double>(1);
	}
}

// the number is an entry of the destination
PSX_CASE(own_entry)
{
	D<double> d(0, 0), f(0, 0);
	CrsMatrix<double> a = symSparse<double>(2, 2, d), b = symSparse<double>(2, 2, f);
	if (a.nonZeros() == 0)
		psx_stop();
	Sz k = psx_choose("entry", a.nonZeros());
	const double s = a.getValue(k);
	Sz form = psx_choose("form", 4);
	if (form == 0)
		a *= a.getValue(k);
	else if (form == 1)
		a = a.getValue(k) * b;
	else if (form == 2)
		a = a.getValue(k) * a;
	else
		a += a.getValue(k) * b;
	Matrix<double> m = a.toDense();
	psx_assert(m.rows() == 2 && m.cols() == 2, "the shape");
	for (Sz i = 0; i < 2; ++i)
		for (Sz j = 0; j < 2; ++j)
			psx_assert(m(i, j) == (form == 1 ? s * f(i, j) : form == 3 ? d(i, j) + s * f(i, j) : s * d(i, j)), "the number is an entry of the destination");
}
