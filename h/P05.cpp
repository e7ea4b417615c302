// P05: dense matrix operators against the entrywise definitions.
//@ bounds: every shape with dimensions 1..3 (quick 1..2 in the complex cases), every integer entry in [-3,3] (parts in [-2,2] for complex), destinations empty, of the right shape or of another shape where the operation allows it; larger ones of fixed shape and pattern (tens of rows, hundreds of entries) with a few symbolic values; numbers near 1e-18 too, and 1/512 in the tests; scalings by an entry of the destination itself, every entry and shape or length up to 3 (sparse 2x2)
//@ assume: rotate() is run over a reference GEMM in the harness (the BLAS library itself is not part of the repository)
//@ case large_real max_instr=60000000
//@ case large_complex max_instr=60000000
//@ case large_rotation max_instr=60000000
#include "mat.h"
#include "gemm.h"
#include "MatrixNonOwned.h"
using namespace PsimagLite;

static Sz dim(const char* n, Sz top) { return 1 + psx_choose(n, top); }
template <typename T>
static Sz top() { return PSX_T(2, 3); }
template <>
Sz top<double>() { return 3; }
template <typename T>
static void obsM(const Matrix<T>& m)
{
	for (Sz i = 0; i < m.rows(); ++i)
		for (Sz j = 0; j < m.cols(); ++j)
			obs(m(i, j));
}
// a destination that may already hold something: empty, the right shape, or another shape with other entries
template <typename T>
static Matrix<T> dest(Sz r, Sz c)
{
	switch (psx_choose("dest", 3)) {
	case 0: return Matrix<T>();
	case 1: return Matrix<T>(r, c, T(7));
	default: return Matrix<T>(r + 1, c + 2, T(7));
	}
}

template <typename T>
static void sums()
{
	Sz r = dim("r", top<T>()), c = dim("c", top<T>());
	D<T> a = symDense<T>(r, c), b = symDense<T>(r, c);
	Matrix<T> A = toMatrix(a), B = toMatrix(b);
	T s;
	symValue(s, -3, 3);
	Matrix<T> R = dest<T>(r, c);
	const T one(1), mone(-1);
	switch (psx_choose("form", 9)) {
	case 0:
		R = A + B;
		checkIs(R, dcomb(a, one, b, one), "A + B");
		break;
	case 1:
		R = A - B;
		checkIs(R, dcomb(a, one, b, mone), "A - B");
		break;
	case 2:
		R = s * A;
		checkIs(R, dscale(a, s), "s * A");
		break;
	case 3:
		R = A * s;
		checkIs(R, dscale(a, s), "A * s");
		break;
	case 4:
		R = s * (A + B);
		checkIs(R, dscale(dcomb(a, one, b, one), s), "s * (A + B)");
		break;
	case 5:
		R = s * (A - B);
		checkIs(R, dscale(dcomb(a, one, b, mone), s), "s * (A - B)");
		break;
	case 6:
		R = A + s * B;
		checkIs(R, dcomb(a, one, b, s), "A + s * B");
		break;
	case 7:
		R = s * A + B;
		checkIs(R, dcomb(a, s, b, one), "s * A + B");
		break;
	default: {
		// the destination is also an operand
		A = A + B;
		checkIs(A, dcomb(a, one, b, one), "A = A + B");
		A = A - B;
		checkIs(A, a, "A = A - B");
		A = s * A;
		checkIs(A, dscale(a, s), "A = s * A");
		A = toMatrix(a);
		A = B - A;
		checkIs(A, dcomb(b, one, a, mone), "A = B - A");
		A = toMatrix(a);
		A = B + s * A;
		checkIs(A, dcomb(b, one, a, s), "A = B + s * A");
		R = A;
		A = toMatrix(a);
	}
	}
	checkIs(A, a, "left operand unmodified");
	checkIs(B, b, "right operand unmodified");
	obsM(R);
}
PSX_CASE(sums_real) { sums<double>(); }
PSX_CASE(sums_complex) { sums<Cx>(); }

template <typename T>
static void inplace()
{
	Sz r = dim("r", top<T>()), c = dim("c", top<T>());
	D<T> a = symDense<T>(r, c), b = symDense<T>(r, c);
	Matrix<T> A = toMatrix(a), B = toMatrix(b);
	const T one(1), mone(-1);
	T s;
	symValue(s, -3, 3);
	switch (psx_choose("form", 8)) {
	case 0:
		A += B;
		checkIs(A, dcomb(a, one, b, one), "A += B");
		break;
	case 1:
		A -= B;
		checkIs(A, dcomb(a, one, b, mone), "A -= B");
		break;
	case 2:
		A *= s;
		checkIs(A, dscale(a, s), "A *= s");
		break;
	case 3:
		A += s * B;
		checkIs(A, dcomb(a, one, b, s), "A += s * B");
		break;
	case 4:
		A += B * s;
		checkIs(A, dcomb(a, one, b, s), "A += B * s");
		break;
	case 5: {
		Matrix<T> E;
		E += s * B;
		checkIs(E, dscale(b, s), "empty += s * B");
		Matrix<T> F;
		F += B * s;
		checkIs(F, dscale(b, s), "empty += B * s");
		break;
	}
	case 6: {
		A += A;
		checkIs(A, dcomb(a, one, a, one), "A += A");
		A -= A;
		checkIs(A, D<T>(r, c), "A -= A");
		break;
	}
	default: {
		A.conjugate();
		D<T> e = a;
		for (Sz i = 0; i < e.d.size(); ++i)
			e.d[i] = cj(a.d[i]);
		checkIs(A, e, "conjugate");
		Matrix<T> S(1, 1, s);
		A.swap(S);
		checkIs(S, e, "swap");
		D<T> one1(1, 1);
		one1.d[0] = s;
		checkIs(A, one1, "swap the other way");
		S.setTo(s);
		for (Sz i = 0; i < e.d.size(); ++i)
			e.d[i] = s;
		checkIs(S, e, "setTo");
	}
	}
	checkIs(B, b, "operand unmodified");
	obsM(A);
}
PSX_CASE(inplace_real) { inplace<double>(); }
PSX_CASE(inplace_complex) { inplace<Cx>(); }

// operands of different sizes: reported, or the entries both have are combined, but nothing is read or written outside
PSX_CASE(inplace_mismatch)
{
	Sz r = dim("r", 2), c = dim("c", 2), p = dim("p", 2), q = dim("q", 2);
	if (r == p && c == q)
		psx_stop();
	D<double> a = symDense<double>(r, c), b = symDense<double>(p, q);
	Matrix<double> A = toMatrix(a), B = toMatrix(b);
	double s = psx_dbl("s", -3, 3);
	Sz form = psx_choose("form", 4);
	try {
		if (form == 0)
			A += B;
		else if (form == 1)
			A -= B;
		else if (form == 2)
			A += s * B;
		else
			A += B * s;
	} catch (RuntimeError&) {
	}
	checkIs(B, b, "operand unmodified");
	if (form < 2)
		psx_assert(A.rows() == r && A.cols() == c, "shape kept");
	obs(A.data()[0]);
}

template <typename T>
static void products()
{
	Sz m = dim("m", top<T>()), k = dim("k", PSX_T(2, 3)), n = dim("n", top<T>());
	D<T> a = symDense<T>(m, k, -2, 2), b = symDense<T>(k, n, -2, 2);
	Matrix<T> A = toMatrix(a), B = toMatrix(b);
	D<T> ab = dmul(a, b);
	switch (psx_choose("form", 5)) {
	case 0: {
		Matrix<T> R = A * B;
		checkIs(R, ab, "constructed from A * B");
		obsM(R);
		break;
	}
	case 1: {
		Matrix<T> R = dest<T>(m, n);
		R = A * B;
		checkIs(R, ab, "R = A * B");
		obsM(R);
		break;
	}
	case 2: {
		T s;
		symValue(s, -2, 2);
		Matrix<T> R = dest<T>(m, n);
		R = s * A * B;
		checkIs(R, dscale(ab, s), "R = s * A * B");
		obsM(R);
		break;
	}
	case 3: {
		A = A * B;
		checkIs(A, ab, "A = A * B");
		A = toMatrix(a);
		B = A * B;
		checkIs(B, ab, "B = A * B");
		B = toMatrix(b);
		break;
	}
	default: {
		std::vector<T> x = symVec<T>(k, -2, 2), y = symVec<T>(m, -2, 2), w(1 + psx_choose("len", 2), T(5)), ax(m, T(0)), ya(k, T(0));
		for (Sz i = 0; i < m; ++i)
			for (Sz j = 0; j < k; ++j) {
				ax[i] += a(i, j) * x[j];
				ya[j] += y[i] * a(i, j);
			}
		w <= A * x;
		checkIs(w, ax, "matrix times vector");
		obs(w[0]);
		w <= y * A;
		checkIs(w, ya, "vector times matrix");
	}
	}
	checkIs(A, a, "left operand unmodified");
	checkIs(B, b, "right operand unmodified");
}
PSX_CASE(products_real) { products<double>(); }
PSX_CASE(products_complex) { products<Cx>(); }

template <typename T>
static void adjoints()
{
	Sz m = dim("m", top<T>()), n = dim("n", top<T>());
	D<T> a = symDense<T>(m, n, -2, 2);
	Matrix<T> A = toMatrix(a);
	D<T> t(n, m), h(n, m);
	for (Sz i = 0; i < m; ++i)
		for (Sz j = 0; j < n; ++j) {
			t(j, i) = a(i, j);
			h(j, i) = cj(a(i, j));
		}
	checkIs(transposeConjugate(A), h, "transposeConjugate");
	Matrix<T> R, S;
	if (psx_choose("dest", 2)) {
		R = Matrix<T>(n, m + 1, T(5));
		S = Matrix<T>(n, 1, T(5));
	}
	transposeConjugate(R, A);
	checkIs(R, h, "transposeConjugate into a matrix");
	transpose(S, A);
	checkIs(S, t, "transpose into a matrix");
	Sz k = dim("k", 2);
	D<T> b = symDense<T>(m, k, -2, 2);
	Matrix<T> B = toMatrix(b);
	checkIs(multiplyTransposeConjugate(A, B), dmul(h, b), "adjoint times matrix");
	checkIs(multiplyTransposeConjugate(A, B, 'T'), dmul(t, b), "transpose times matrix");
	checkIs(A, a, "operand unmodified");
	obsM(R);
}
PSX_CASE(adjoints_real) { adjoints<double>(); }
PSX_CASE(adjoints_complex) { adjoints<Cx>(); }

template <typename T>
static void outer()
{
	Sz m = dim("m", 2), n = dim("n", 2), p = dim("p", 2), q = dim("q", top<T>());
	D<T> b = symDense<T>(m, n), c = symDense<T>(p, q);
	Matrix<T> A, B = toMatrix(b), C = toMatrix(c);
	if (psx_choose("used", 2))
		A = Matrix<T>(m * p, 1 + n * q, T(9));
	outerProduct(A, B, C);
	D<T> e(m * p, n * q);
	for (Sz i = 0; i < m * p; ++i)
		for (Sz j = 0; j < n * q; ++j)
			e(i, j) = b(i % m, j % n) * c(i / m, j / n);
	checkIs(A, e, "outer product");
	obsM(A);
}
PSX_CASE(outer_real) { outer<double>(); }
PSX_CASE(outer_complex) { outer<Cx>(); }

template <typename T>
static void tests()
{
	Sz m = dim("m", top<T>()), n = dim("n", top<T>());
	D<T> a = symDense<T>(m, n, -1, 2);
	Matrix<T> A = toMatrix(a);
	bool herm = m == n, anti = m == n, id = m == n, zero = true;
	Sz nz = 0;
	typename Real<T>::Type sq = 0;
	for (Sz i = 0; i < m; ++i)
		for (Sz j = 0; j < n; ++j) {
			zero = zero & same(a(i, j), T(0));
			nz += !same(a(i, j), T(0));
			sq += PsimagLite::real(cj(a(i, j)) * a(i, j));
			if (m == n) {
				herm = herm & same(a(i, j), cj(a(j, i)));
				anti = anti & same(a(i, j), -cj(a(j, i)));
				id = id & same(a(i, j), T(i == j ? 1 : 0));
			}
		}
	switch (psx_choose("test", 6)) {
	case 0: {
		bool thrown = false, r = false;
		try {
			r = isHermitian(A);
		} catch (RuntimeError&) {
			thrown = true;
		}
		psx_assert(thrown == (m != n), "isHermitian reports non-square matrices");
		psx_assert(r == herm, "isHermitian");
		break;
	}
	case 1: {
		bool thrown = false, r = false;
		try {
			r = isAntiHermitian(A);
		} catch (RuntimeError&) {
			thrown = true;
		}
		psx_assert(thrown == (m != n), "isAntiHermitian reports non-square matrices");
		psx_assert(r == anti, "isAntiHermitian");
		break;
	}
	case 2: psx_assert(isTheIdentity(A) == id, "isTheIdentity"); break;
	case 3: psx_assert(isZero(A) == zero, "isZero"); break;
	case 4: psx_assert(A.nonZeros() == nz, "nonZeros"); break;
	default: psx_assert(norm2(A) == sq, "norm2");
	}
	psx_observe(nz);
}
PSX_CASE(tests_real) { tests<double>(); }
PSX_CASE(tests_complex) { tests<Cx>(); }

PSX_CASE(equality)
{
	Sz m = dim("m", 2), n = dim("n", 3), p = dim("p", 2), q = dim("q", 3);
	D<double> a = symDense<double>(m, n), b = symDense<double>(p, q);
	bool e = m == p && n == q;
	if (e)
		for (Sz i = 0; i < a.d.size(); ++i)
			e = e & (a.d[i] == b.d[i]);
	psx_assert((toMatrix(a) == toMatrix(b)) == e, "equality");
	psx_observe(e);
}

PSX_CASE(construct_resize)
{
	Sz m = dim("m", 3), n = dim("n", 3), p = dim("p", 3), q = dim("q", 3);
	D<double> a = symDense<double>(m, n);
	Matrix<double> A = toMatrix(a);
	switch (psx_choose("form", 5)) {
	case 0: {
		bool thrown = false;
		try {
			A.resize(p, q);
		} catch (RuntimeError&) {
			thrown = true;
		}
		psx_assert(thrown == (p != m), "changing the number of rows is refused");
		if (thrown) {
			checkIs(A, a, "a refused resize leaves the matrix alone");
			break;
		}
		psx_assert(A.rows() == m && A.cols() == q, "shape after resize");
		for (Sz i = 0; i < m; ++i)
			for (Sz j = 0; j < q; ++j)
				psx_assert(A(i, j) == (j < n ? a(i, j) : 0.0), "resize keeps the common columns, new ones are zero");
		break;
	}
	case 1: {
		A.clear();
		psx_assert(A.rows() == 0 && A.cols() == 0 && A.nonZeros() == 0, "cleared");
		double s = psx_dbl("s", -3, 3);
		A.resize(p, q, s);
		D<double> e(p, q);
		for (Sz i = 0; i < p * q; ++i)
			e.d[i] = s;
		checkIs(A, e, "resize with a value from empty");
		break;
	}
	case 2: {
		std::vector<double> v = symVec<double>(m * n);
		bool thrown = false;
		try {
			Matrix<double> B(v, p, q);
			for (Sz i = 0; i < p; ++i)
				for (Sz j = 0; j < q; ++j)
					psx_assert(B(i, j) == v[i + j * p], "from a vector, column by column");
			psx_assert(B.rows() == p && B.cols() == q, "shape from a vector");
		} catch (RuntimeError&) {
			thrown = true;
		}
		psx_assert(thrown == (p * q > m * n), "too short a vector is refused");
		break;
	}
	case 3: {
		Matrix<Cx> B(A);
		D<Cx> e(m, n);
		for (Sz i = 0; i < m * n; ++i)
			e.d[i] = Cx(a.d[i], 0);
		checkIs(B, e, "complex from real");
		break;
	}
	default: {
		bool thrown = false;
		try {
			A.setToIdentity();
		} catch (RuntimeError&) {
			thrown = true;
		}
		psx_assert(thrown == (m != n), "identity of a non-square shape is refused");
		for (Sz i = 0; i < m; ++i)
			for (Sz j = 0; j < n; ++j)
				psx_assert(A(i, j) == (thrown ? a(i, j) : i == j ? 1.0 : 0.0), "setToIdentity");
	}
	}
}

PSX_CASE(non_owned)
{
	Sz m = dim("m", 2), n = dim("n", 3), off = psx_choose("off", 3), extra = psx_choose("extra", 2);
	std::vector<double> v = symVec<double>(off + m * n + extra), w = v;
	MatrixNonOwned<double> a(m, n, v, off);
	MatrixNonOwned<const double> b(m, n, w, off);
	Sz i = psx_range("i", 0, m - 1), j = psx_range("j", 0, n - 1);
	psx_assert(b(i, j) == w[off + i + j * m], "read through a view");
	double s = psx_dbl("s", -3, 3);
	a(i, j) = s;
	for (Sz k = 0; k < v.size(); ++k)
		psx_assert(v[k] == (k == off + i + j * m ? s : w[k]), "a write through a view changes that element only");
	psx_observe_f(v[off]);
}

template <typename T>
static void rot()
{
	Sz n = dim("n", 2), k = dim("k", PSX_T(2, 3));
	D<T> a = symDense<T>(n, n, -2, 2), u = symDense<T>(n, k, -2, 2), h(k, n);
	for (Sz i = 0; i < n; ++i)
		for (Sz j = 0; j < k; ++j)
			h(j, i) = cj(u(i, j));
	Matrix<T> A = toMatrix(a), U = toMatrix(u);
	rotate(A, U);
	checkIs(A, dmul(dmul(h, a), u), "rotation by a transform");
	checkIs(U, u, "transform unmodified");
	obsM(A);
}
PSX_CASE(rotate_real) { rot<double>(); }
PSX_CASE(rotate_complex) { rot<Cx>(); }

// larger matrices
template <typename T>
static void big(Sz n, Sz k, Sz m)
{
	D<T> a = bigDense<T>(n, k, 1), b = bigDense<T>(k, m, 2, 0), c = bigDense<T>(n, k, 3, 0), h(k, n), t(k, n);
	Matrix<T> A = toMatrix(a), B = toMatrix(b), C = toMatrix(c), R;
	T s;
	symValue(s, 1, 3);
	const T one(1), mone(-1);
	for (Sz i = 0; i < n; ++i)
		for (Sz j = 0; j < k; ++j) {
			h(j, i) = cj(a(i, j));
			t(j, i) = a(i, j);
		}
	switch (psx_choose("form", 6)) {
	case 0:
		R = A + C;
		checkIs(R, dcomb(a, one, c, one), "A + C");
		R = A - C;
		checkIs(R, dcomb(a, one, c, mone), "A - C");
		R = s * (A - C);
		checkIs(R, dscale(dcomb(a, one, c, mone), s), "s * (A - C)");
		R += A;
		checkIs(R, dcomb(dscale(dcomb(a, one, c, mone), s), one, a, one), "R += A");
		R = A + s * C;
		checkIs(R, dcomb(a, one, c, s), "A + s * C");
		break;
	case 1:
		R = A * B;
		checkIs(R, dmul(a, b), "A * B");
		R = s * A * B;
		checkIs(R, dscale(dmul(a, b), s), "s * A * B");
		break;
	case 2:
		checkIs(transposeConjugate(A), h, "transposeConjugate");
		transposeConjugate(R, A);
		checkIs(R, h, "transposeConjugate into a matrix");
		transpose(R, A);
		checkIs(R, t, "transpose into a matrix");
		checkIs(multiplyTransposeConjugate(A, C), dmul(h, c), "adjoint times matrix");
		checkIs(multiplyTransposeConjugate(A, C, 'T'), dmul(t, c), "transpose times matrix");
		break;
	case 3: {
		std::vector<T> x = bigVec<T>(k, 4, 0), y = bigVec<T>(n, 5, 0), w(1, T(5)), ax(n, T(0)), ya(k, T(0));
		for (Sz i = 0; i < n; ++i)
			for (Sz j = 0; j < k; ++j) {
				ax[i] += a(i, j) * x[j];
				ya[j] += y[i] * a(i, j);
			}
		w <= A * x;
		checkIs(w, ax, "matrix times vector");
		w <= y * A;
		checkIs(w, ya, "vector times matrix");
		break;
	}
	case 4: {
		D<T> p = bigDense<T>(3, 5, 6, 0);
		Matrix<T> P = toMatrix(p);
		outerProduct(R, P, A);
		D<T> e(3 * n, 5 * k);
		for (Sz i = 0; i < 3 * n; ++i)
			for (Sz j = 0; j < 5 * k; ++j)
				e(i, j) = p(i % 3, j % 5) * a(i / 3, j / 5);
		checkIs(R, e, "outer product");
		break;
	}
	default: {
		typename Real<T>::Type sq = 0;
		Sz nz = 0;
		if (n * k > 100)
			A = toMatrix(a = bigDense<T>(n, k, 1, 1));
		for (Sz i = 0; i < a.d.size(); ++i) {
			sq += PsimagLite::real(cj(a.d[i]) * a.d[i]);
			nz += !same(a.d[i], T(0));
		}
		psx_assert(norm2(A) == sq, "norm2");
		psx_assert(A.nonZeros() == nz, "nonZeros");
		psx_assert(A == toMatrix(a) && !(A == C), "equality");
		R = A;
		R *= s;
		checkIs(R, dscale(a, s), "A *= s");
		R.resize(n, k + 3);
		for (Sz i = 0; i < n; ++i)
			for (Sz j = 0; j < k + 3; ++j)
				psx_assert(same(R(i, j), j < k ? s * a(i, j) : T(0)), "resize keeps the common columns");
	}
	}
	checkIs(A, a, "left operand unmodified");
	checkIs(B, b, "right operand unmodified");
	checkIs(C, c, "third operand unmodified");
}
PSX_CASE(large_real)
{
	if (psx_choose("k", 2))
		big<double>(19, 17, 21);
	else
		big<double>(2, 67, 3);
}
PSX_CASE(large_complex) { big<Cx>(11, 9, 10); }
PSX_CASE(large_rotation)
{
	Sz n = 9, k = 7;
	D<Cx> a = bigDense<Cx>(n, n, 1), u = bigDense<Cx>(n, k, 2), h(k, n);
	for (Sz i = 0; i < n; ++i)
		for (Sz j = 0; j < k; ++j)
			h(j, i) = cj(u(i, j));
	Matrix<Cx> A = toMatrix(a), U = toMatrix(u);
	rotate(A, U);
	checkIs(A, dmul(dmul(h, a), u), "rotation by a transform");
	checkIs(U, u, "transform unmodified");
}

// numbers near 1e-18 count, in the tests 1/512
PSX_CASE(tiny_arithmetic)
{
	unit() = 1. / (1ul << 60);
	switch (psx_choose("what", 3)) {
	case 0: products<double>(); break;
	case 1: outer<double>(); break;
	default: adjoints<Cx>();
	}
}
PSX_CASE(small_tests)
{
	unit() = 1. / 512;
	tests<double>();
}

// the number is an entry of the matrix
template <typename T>
static void ownEntry()
{
	Sz m = dim("m", top<T>()), n = dim("n", top<T>()), p = psx_choose("row", m), q = psx_choose("col", n);
	D<T> d = symDense<T>(m, n), f = symDense<T>(m, n);
	Matrix<T> a = toMatrix(d), b = toMatrix(f);
	const T s = d(p, q);
	Sz form = psx_choose("form", 4);
	if (form == 0)
		a *= a(p, q);
	else if (form == 1)
		a = a(p, q) * a;
	else if (form == 2)
		a += a(p, q) * b;
	else
		a = a(p, q) * (a + b);
	psx_assert(a.rows() == m && a.cols() == n, "the shape");
	for (Sz i = 0; i < m; ++i)
		for (Sz j = 0; j < n; ++j)
			psx_assert(same(a(i, j), form < 2 ? s * d(i, j) : form == 2 ? d(i, j) + s * f(i, j) : s * (d(i, j) + f(i, j))), "the number is an entry of the matrix");
	obsM(a);
}
PSX_CASE(own_entry_real) { ownEntry<double>(); }
PSX_CASE(own_entry_complex) { ownEntry<Cx>(); }
