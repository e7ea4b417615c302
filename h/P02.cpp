// P02: dense/sparse conversion and the structure of sparse matrices.
//@ bounds: matrices up to 2x3 / 3x2 (conversions; thorough 3x3), every pattern and every stored integer value in [-3,3], real and complex; coordinate lists of 1..3 entries (thorough 4) in a 2x2 or 3x3 matrix in every order; every kind of earlier content of the destination (empty, other shape, same shape); larger ones of fixed shape and pattern (tens of rows, hundreds of entries) with a few symbolic values; matrices of 2x2 with an entry of any of eight sizes from the least number to the largest, beside a symbolic one
//@ case large_real max_instr=60000000
//@ case large_complex max_instr=60000000
//@ case large_sparse max_instr=60000000
#include "mat.h"
#include "SampleCRSMatrix.h"
using namespace PsimagLite;

static Sz shapeR(Sz k) { static const Sz r[] = { 1, 2, 3, 2, 1, 2 }; return r[k]; }
static Sz shapeC(Sz k) { static const Sz c[] = { 1, 2, 2, 3, 3, 1 }; return c[k]; }

template <typename T>
static void used(CrsMatrix<T>& m, Sz r, Sz c)
{
	switch (psx_choose("earlier content", 4)) {
	case 0: return;
	case 1: m.makeDiagonal(r + 1, T(7)); return;
	case 2: m.makeDiagonal(1, T(7)); return;
	default: {
		D<T> d(0, 0);
		m = symSparse<T>(r, c, d, false, 5, 5, true);
		return;
	}
	}
}
template <typename T>
static void used(Matrix<T>& m, Sz r, Sz c)
{
	switch (psx_choose("earlier content", 4)) {
	case 0: return;
	case 1: m.resize(r + 1, c + 1, T(7)); return;
	case 2: m.resize(1, 1, T(7)); return;
	default: m.resize(r, c, T(7)); return;
	}
}
template <typename T>
static void denseToSparse(Sz r, Sz c)
{
	D<T> d = symDense<T>(r, c, -2, 2);
	Matrix<T> m = toMatrix(d);
	CrsMatrix<T> x;
	if (psx_choose("how", 2)) {
		CrsMatrix<T> y(m);
		x = y;
	} else {
		used(x, r, c);
		fullMatrixToCrsMatrix(x, m);
	}
	checkIs(x, d, "sparse form of a dense matrix");
	checkIs(m, d, "source unmodified");
	for (Sz i = 0; i < x.nonZeros(); ++i)
		psx_assert(!same(x.getValue(i), T(0)), "zeros are not stored");
	for (Sz i = 0; i < x.nonZeros(); ++i)
		obs(x.getValue(i));
}
PSX_CASE(dense_to_sparse_real)
{
	Sz k = psx_choose("shape", 6);
	denseToSparse<double>(shapeR(k), shapeC(k));
}
PSX_CASE(dense_to_sparse_complex) { denseToSparse<Cx>(1, 2); }
PSX_CASE(dense_to_sparse_int) { denseToSparse<int>(2, 2); }
#ifdef PSX_THOROUGH
PSX_CASE(dense_to_sparse_complex_2) { denseToSparse<Cx>(2, 2); }
PSX_CASE(dense_to_sparse_3) { denseToSparse<double>(3, 3); }
#endif

template <typename T>
static void sparseToDense(Sz r, Sz c)
{
	D<T> d(0, 0);
	CrsMatrix<T> x = symSparse<T>(r, c, d, true);
	if (psx_choose("how", 2)) {
		checkIs(x.toDense(), d, "dense form");
	} else {
		Matrix<T> m;
		used(m, r, c);
		crsMatrixToFullMatrix(m, x);
		checkIs(m, d, "dense form into a used matrix");
	}
	checkIs(x, d, "source unmodified");
	// and back
	CrsMatrix<T> y(x.toDense());
	checkIs(y, d, "round trip");
}
PSX_CASE(sparse_to_dense_real)
{
	Sz k = psx_choose("shape", 6);
	sparseToDense<double>(shapeR(k), shapeC(k));
}
PSX_CASE(sparse_to_dense_complex) { sparseToDense<Cx>(PSX_T(1, 2), 2); }
#ifdef PSX_THOROUGH
PSX_CASE(sparse_to_dense_3) { sparseToDense<double>(3, 3); }
#endif

// coordinate lists: distinct places in any order
template <typename T>
static void triplets(Sz rank, Sz maxEntries)
{
	Sz n = 1 + psx_choose("entries", maxEntries);
	Vector<SizeType>::Type rows(n), cols(n);
	typename Vector<T>::Type vals(n);
	D<T> d(rank, rank);
	std::vector<char> takenPlaces(rank * rank, 0);
	for (Sz i = 0; i < n; ++i) {
		rows[i] = psx_choose("row", rank);
		cols[i] = psx_choose("col", rank);
		symValue(vals[i], -3, 3);
		psx_assume(!takenPlaces[rows[i] * rank + cols[i]]);
		takenPlaces[rows[i] * rank + cols[i]] = 1;
		d(rows[i], cols[i]) = vals[i];
	}
	Vector<SizeType>::Type r0 = rows, c0 = cols;
	CrsMatrix<T> x(rank, rows, cols, vals);
	checkIs(x, d, "matrix from coordinates");
	psx_assert(rows == r0 && cols == c0, "lists unmodified");
	for (Sz i = 0; i < x.nonZeros(); ++i)
		obs(x.getValue(i));
}
PSX_CASE(triplets_2) { triplets<double>(2, 4); }
PSX_CASE(triplets_3) { triplets<double>(3, PSX_T(3, 4)); }
PSX_CASE(triplets_complex) { triplets<Cx>(2, 3); }

// building row by row, with or without a stated number of entries
PSX_CASE(row_by_row)
{
	Sz k = psx_choose("shape", 6), r = shapeR(k), c = shapeC(k);
	D<double> d(r, c);
	Sz nnz = 0;
	std::vector<int> pat(r * c);
	for (Sz i = 0; i < r * c; ++i) {
		pat[i] = psx_choose("stored", 2);
		nnz += pat[i];
		if (pat[i])
			symValue(d.d[i], -3, 3);
	}
	Sz how = psx_choose("how", 3);
	CrsMatrix<double> m;
	if (how == 0) {
		CrsMatrix<double> y(r, c, nnz);
		m = y;
	} else {
		used(m, r, c);
		if (how == 1)
			m.resize(r, c, nnz);
		else {
			m.clear();
			psx_assert(m.rows() == 0 && m.cols() == 0 && m.nonZeros() == 0, "cleared");
			m.resize(r, c);
		}
	}
	Sz n = 0;
	for (Sz i = 0; i < r; ++i) {
		m.setRow(i, n);
		for (Sz j = 0; j < c; ++j) {
			if (!pat[i * c + j])
				continue;
			if (how == 2) {
				m.pushCol(j);
				m.pushValue(d(i, j));
			} else {
				m.setCol(n, j);
				m.setValues(n, d(i, j));
			}
			++n;
		}
	}
	m.setRow(r, n);
	m.checkValidity();
	checkIs(m, d, "matrix built row by row");
}
PSX_CASE(copy_swap_equal)
{
	Sz k = psx_choose("shape", 6), r = shapeR(k), c = shapeC(k);
	D<double> da(0, 0), db(0, 0);
	CrsMatrix<double> a = symSparse<double>(r, c, da), b;
	b.makeDiagonal(2, 4.0);
	db = D<double>(2, 2);
	db(0, 0) = db(1, 1) = 4.0;
	CrsMatrix<double> cpy(a);
	checkIs(cpy, da, "copy");
	psx_assert(cpy == a, "a copy is equal");
	a.swap(b);
	checkIs(a, db, "swapped");
	checkIs(b, da, "swapped");
	cpy = a;
	checkIs(cpy, db, "assigned");
	a = a;
	checkIs(a, db, "assigned to itself");
}
PSX_CASE(diagonal)
{
	Sz n = 1 + psx_choose("n", 4);
	CrsMatrix<double> m;
	used(m, 2, 2);
	double v = psx_dbl("v", -3, 3);
	m.makeDiagonal(n, v);
	D<double> d(n, n);
	for (Sz i = 0; i < n; ++i)
		d(i, i) = v;
	checkIs(m, d, "diagonal matrix");
}
// asking for a shape, or clearing, forgets the earlier content
PSX_CASE(start_again)
{
	Sz k = psx_choose("shape", 6), r = shapeR(k), c = shapeC(k);
	CrsMatrix<double> m;
	used(m, r, c);
	if (psx_choose("how", 2)) {
		m.clear();
		psx_assert(m.rows() == 0 && m.cols() == 0 && m.nonZeros() == 0, "cleared");
		CrsMatrix<double> fresh;
		psx_assert(m == fresh, "a cleared matrix is an empty one");
	} else {
		m.resize(r, c);
		D<double> d(r, c);
		checkIs(m, d, "a new shape without entries is the zero matrix");
	}
	D<double> e(0, 0);
	CrsMatrix<double> b = symSparse<double>(2, 2, e);
	m = b;
	checkIs(m, e, "used again");
}
// a matrix in the list-of-entries form that converts by assignment
struct Entries {
	Sz r, c;
	std::vector<Sz> row, col;
	std::vector<double> val;
	bool sorted() const
	{
		for (Sz i = 0; i + 1 < row.size(); ++i)
			if (row[i] > row[i + 1] || (row[i] == row[i + 1] && col[i] > col[i + 1]))
				return false;
		return true;
	}
	Sz nonZeros() const { return val.size(); }
	Sz rows() const { return r; }
	Sz cols() const { return c; }
	Sz getRow(Sz i) const { return row[i]; }
	Sz getColumn(Sz i) const { return col[i]; }
	double getValue(Sz i) const { return val[i]; }
};
PSX_CASE(from_sorted_entries)
{
	Sz k = psx_choose("shape", 6);
	Entries e;
	e.r = shapeR(k);
	e.c = shapeC(k);
	D<double> d(e.r, e.c);
	for (Sz i = 0; i < e.r; ++i)
		for (Sz j = 0; j < e.c; ++j)
			if (psx_choose("stored", 2)) {
				e.row.push_back(i);
				e.col.push_back(j);
				d(i, j) = psx_dbl("v", -3, 3);
				e.val.push_back(d(i, j));
			}
	CrsMatrix<double> m;
	used(m, 2, 2);
	m = e;
	checkIs(m, d, "from sorted entries");
}
// the random sample matrix: the draws are arbitrary
static Sz steps = 2, drawn = 0;
extern "C" double drand48() noexcept
{
	Sz n = (++drawn % 3) ? steps : 2;
	return psx_choose("draw", n) / double(n);
}
extern "C" void srand48(long) noexcept { }
PSX_CASE(sample_matrix)
{
	Sz rank = 2 + 2 * psx_choose("rank", 2);
	Sz n = 1 + psx_choose("entries", rank == 2 ? PSX_T(3, 4) : 2);
	steps = rank;
	SampleCRSMatrix<double> m(rank, 1234, n, 1.0);
	psx_assert(m.rank() == rank, "rank");
	psx_assert(m.getRowPtr(0) == 0 && m.getRowPtr(rank) == n, "offsets from zero to the number of entries");
	for (Sz i = 0; i < rank; ++i)
		psx_assert(m.getRowPtr(i) <= m.getRowPtr(i + 1), "row offsets never decrease");
	std::vector<double> x = symVec<double>(rank), y = symVec<double>(rank), x0 = x;
	m.matrixVectorProduct(x, y);
	for (Sz i = 0; i < rank; ++i) {
		double e = x0[i];
		for (Sz k = m.getRowPtr(i); k < m.getRowPtr(i + 1); ++k) {
			psx_assert(m.getCol(k) < rank, "column in range");
			e += m.getValues(k) * y[m.getCol(k)];
		}
		psx_assert(e == x[i], "matrix times vector");
	}
}
PSX_CASE(conjugated)
{
	D<Cx> d(0, 0);
	CrsMatrix<Cx> a = symSparse<Cx>(2, 2, d);
	a.conjugate();
	for (Sz i = 0; i < 4; ++i)
		d.d[i] = cj(d.d[i]);
	checkIs(a, d, "conjugate");
}

// larger matrices
template <typename T>
static void big(Sz r, Sz c, unsigned sparse)
{
	D<T> d(0, 0);
	CrsMatrix<T> x = bigSparse<T>(r, c, d, r + c, sparse, 2, psx_choose("back", 2)), y;
	Matrix<T> m(2, 2, T(5)), m2 = toMatrix(d);
	checkIs(x.toDense(), d, "dense form");
	crsMatrixToFullMatrix(m, x);
	checkIs(m, d, "dense form into a used matrix");
	D<T> other(0, 0);
	if (psx_choose("used", 2))
		y = bigSparse<T>(c, r, other, 3);
	fullMatrixToCrsMatrix(y, m2);
	checkIs(y, d, "sparse form of a dense matrix");
	for (Sz i = 0; i < y.nonZeros(); ++i)
		psx_assert(!same(y.getValue(i), T(0)), "zeros are not stored");
	CrsMatrix<T> z(x);
	psx_assert(z == x, "a copy is equal");
	if (r != c)
		return;
	// coordinates in a mixed order
	std::vector<Sz> rows, cols;
	std::vector<T> vals;
	for (Sz k = 0; k < r; ++k)
		for (Sz i = 0; i < r; ++i) {
			Sz j = (7 * i + k) % c;
			if (!same(m2(i, j), T(0))) {
				rows.push_back(i);
				cols.push_back(j);
				vals.push_back(m2(i, j));
			}
		}
	CrsMatrix<T> t(r, rows, cols, vals);
	checkIs(t, d, "matrix from coordinates");
}
PSX_CASE(large_real)
{
	if (psx_choose("square", 2))
		big<double>(23, 23, 3);
	else
		big<double>(18, 25, 3);
}
PSX_CASE(large_complex) { big<Cx>(13, 13, 3); }
PSX_CASE(large_sparse) { big<double>(67, 67, 40); }

// entries of every size that a number can have, next to a symbolic one
template <typename T>
static T sized(Sz k, double v)
{
	static const double all[] = { 0, 4.9406564584124654e-324, -1e-308, 1e-170, -3e-17, 1e-9, -1e200, 1.7976931348623157e308 };
	return k == 8 ? T(v) : T(all[k]);
}
static void place(double& x, double v, bool) { x = v; }
static void place(Cx& x, double v, bool im) { x = im ? Cx(0, v) : Cx(v, 0); }
template <typename T>
static void magnitudes()
{
	double v = psx_dbl("v", -2, 2);
	D<T> d(2, 2);
	Sz at = psx_choose("place", 4);
	bool im = psx_choose("part", 2);
	for (Sz i = 0; i < 4; ++i)
		place(d.d[i], i == at ? sized<double>(psx_choose("size", 8), v) : i == (at + 1) % 4 ? v : i * 1e-30, im);
	Matrix<T> m = toMatrix(d);
	CrsMatrix<T> x;
	if (psx_choose("how", 2)) {
		CrsMatrix<T> y(m);
		x = y;
	} else {
		fullMatrixToCrsMatrix(x, m);
	}
	checkIs(x, d, "sparse form of entries of any size");
	checkIs(x.toDense(), d, "dense form of entries of any size");
	for (Sz i = 0; i < x.nonZeros(); ++i)
		psx_assert(!same(x.getValue(i), T(0)), "zeros are not stored");
	psx_observe(x.nonZeros());
}
PSX_CASE(magnitudes_real) { magnitudes<double>(); }
PSX_CASE(magnitudes_complex) { magnitudes<Cx>(); }
