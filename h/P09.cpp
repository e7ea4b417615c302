// P09: row accumulators.
//@ bounds: up to 3 additions (quick; 4 thorough) per row of any column below 3 (quick; 4 thorough) and any integer value in [-3,3] (parts for complex), two rows, caches of initial size 0..3; larger ones of fixed shape and pattern (tens of rows, hundreds of entries) with a few symbolic values; numbers near 1e-18 too
//@ case large_real max_instr=60000000
//@ case large_complex max_instr=60000000
#include "mat.h"
#include "SparseRow.h"
#include "SparseRowCached.h"
using namespace PsimagLite;
static const Sz N = PSX_T(3, 4);

template <typename T>
struct Adds {
	std::vector<Sz> at;
	std::vector<T> x, d;
	Adds(Sz k, int lo, int hi, bool symbolic = false)
	    : d(N, T(0))
	{
		for (Sz i = 0; i < k; ++i) {
			at.push_back(symbolic ? psx_range("at", 0, N - 1) : psx_choose("at", N));
			T v;
			symValue(v, lo, hi);
			x.push_back(v);
			for (Sz j = 0; j < N; ++j)
				d[j] = j == at[i] ? d[j] + v : d[j];
		}
	}
	T dot(const std::vector<T>& y) const
	{
		T s = 0;
		for (Sz j = 0; j < N; ++j)
			s += d[j] * y[j];
		return s;
	}
};
template <typename T>
static void checkRow(const CrsMatrix<T>& m, Sz lo, Sz hi, const std::vector<T>& d)
{
	std::vector<T> e(N, T(0));
	for (Sz k = lo; k < hi; ++k) {
		Sz c = m.getCol(k);
		psx_assert(c < N, "column in range");
		if (k > lo)
			psx_assert(m.getCol(k - 1) < m.getCol(k), "columns increase strictly");
		T v = m.getValue(k);
		for (Sz j = 0; j < N; ++j)
			e[j] = j == c ? e[j] + v : e[j];
	}
	checkIs(e, d, "sum of the values added for each column");
}

template <typename T>
static void plain(Sz top)
{
	CrsMatrix<T> m(2, N);
	Sz k = psx_choose("k", top + 1), l = psx_choose("l", 3);
	Adds<T> a(k, -3, 3), b(l, -3, 3);
	std::vector<T> y = symVec<T>(N, -2, 2);
	Sz counter = 0;
	m.setRow(0, 0);
	{
		SparseRow<CrsMatrix<T>> r;
		for (Sz i = 0; i < k; ++i)
			r.add(a.at[i], a.x[i]);
		psx_assert(same(r.matrixVectorProduct(y), a.dot(y)), "row times vector");
		psx_assert(same(r.finalize(y), a.dot(y)), "row times vector, final");
		counter += r.finalize(m);
	}
	m.setRow(1, counter);
	Sz first = counter;
	{
		SparseRow<CrsMatrix<T>> r;
		for (Sz i = 0; i < l; ++i)
			r.add(b.at[i], b.x[i]);
		counter += r.finalize(m);
	}
	m.setRow(2, counter);
	psx_assert(m.nonZeros() == counter, "number of entries written");
	checkRow(m, 0, first, a.d);
	checkRow(m, first, counter, b.d);
	psx_observe(counter);
}
PSX_CASE(plain_real) { plain<double>(PSX_T(3, 4)); }
PSX_CASE(plain_complex) { plain<Cx>(2); }

template <typename T>
static void cached(Sz top, bool symbolic)
{
	CrsMatrix<T> m(2, N);
	Sz cache = psx_choose("cache", 4);
	Sz k = psx_choose("k", top + 1), l = psx_choose("l", 3);
	Adds<T> a(k, -3, 3, symbolic), b(l, -3, 3, symbolic);
	SparseRowCached<CrsMatrix<T>> r(cache);
	m.setRow(0, 0);
	for (Sz i = 0; i < k; ++i)
		r.add(a.at[i], a.x[i]);
	Sz first = r.finalize(m);
	m.setRow(1, first);
	// the same accumulator starts again from an empty row
	for (Sz i = 0; i < l; ++i)
		r.add(b.at[i], b.x[i]);
	Sz n = r.finalize(m);
	m.setRow(2, first + n);
	psx_assert(first + n == m.nonZeros(), "number of entries written");
	checkRow(m, 0, first, a.d);
	checkRow(m, first, first + n, b.d);
	psx_observe(first);
	psx_observe(n);
}
PSX_CASE(cached_real) { cached<double>(PSX_T(3, 4), true); }
PSX_CASE(cached_complex) { cached<Cx>(2, true); }

PSX_CASE(cached_product)
{
	Sz cache = psx_choose("cache", 4), k = psx_choose("k", PSX_T(4, 5)), l = psx_choose("l", 3);
	Adds<double> a(k, -3, 3), b(l, -3, 3);
	std::vector<double> y = symVec<double>(N, -2, 2);
	SparseRowCached<CrsMatrix<double>> r(cache);
	for (Sz i = 0; i < k; ++i)
		r.add(a.at[i], a.x[i]);
	double p = r.matrixVectorProduct(y);
	psx_assert(p == a.dot(y), "row times vector");
	for (Sz i = 0; i < l; ++i)
		r.add(b.at[i], b.x[i]);
	double q = r.matrixVectorProduct(y);
	psx_assert(q == b.dot(y), "second row times vector");
	psx_assert(r.matrixVectorProduct(y) == 0.0, "an empty row");
	psx_observe_f(p);
	psx_observe_f(q);
}

// longer rows
template <typename T>
static void big(Sz n, Sz k, Sz cache)
{
	Lcg g(n + k + cache);
	CrsMatrix<T> m(3, n), mc(3, n);
	std::vector<T> y = bigVec<T>(n, 3, 0);
	std::vector<std::vector<T>> d(3, std::vector<T>(n, T(0)));
	SparseRowCached<CrsMatrix<T>> c(cache);
	Sz counter = 0, other = 0;
	for (Sz row = 0; row < 3; ++row) {
		m.setRow(row, counter);
		mc.setRow(row, other);
		SparseRow<CrsMatrix<T>> r;
		SparseRowCached<CrsMatrix<T>> again(cache);
		for (Sz i = 0; i < (row == 1 ? k / 3 : k); ++i) {
			Sz at = g(n);
			T x;
			lcgValue(g, x);
			if (i == k / 4 || i == k - 2)
				symValue(x, 1000, 1003);
			r.add(at, x);
			c.add(at, x);
			again.add(at, x);
			d[row][at] += x;
		}
		T p = 0;
		for (Sz j = 0; j < n; ++j)
			p += d[row][j] * y[j];
		psx_assert(same(r.matrixVectorProduct(y), p), "row times vector");
		psx_assert(same(again.matrixVectorProduct(y), p), "row of the other accumulator times vector");
		counter += r.finalize(m);
		other += c.finalize(mc);
	}
	m.setRow(3, counter);
	mc.setRow(3, other);
	psx_assert(m.nonZeros() == counter && mc.nonZeros() == other, "number of entries written");
	for (Sz row = 0; row < 3; ++row)
		for (Sz which = 0; which < 2; ++which) {
			const CrsMatrix<T>& x = which ? mc : m;
			std::vector<T> e(n, T(0));
			for (int q = x.getRowPtr(row); q < x.getRowPtr(row + 1); ++q) {
				psx_assert((Sz)x.getCol(q) < n && (q == x.getRowPtr(row) || x.getCol(q - 1) < x.getCol(q)), "columns increase strictly");
				e[x.getCol(q)] += x.getValue(q);
			}
			checkIs(e, d[row], "sum of the values added for each column");
		}
}
PSX_CASE(large_real)
{
	static const Sz caches[] = { 0, 1, 16, 40, 100 };
	Sz cache = caches[psx_choose("cache", 5)];
	if (psx_choose("k", 2))
		big<double>(30, 50, cache);
	else
		big<double>(150, 40, cache);
}
PSX_CASE(large_complex) { big<Cx>(24, 30, psx_choose("cache", 2) ? 4 : 50); }

// numbers near 1e-18 count
PSX_CASE(tiny)
{
	unit() = 1. / (1ul << 60);
	switch (psx_choose("what", 4)) {
	case 0: plain<double>(2); break;
	case 1: plain<Cx>(1); break;
	case 2: cached<double>(2, true); break;
	default: cached<Cx>(1, true);
	}
}
