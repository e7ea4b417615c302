// Symbolic dense and sparse matrices for the harnesses, and their independent dense meaning.
#pragma once
#include "psx.h"
#include "Vector.h"
#include "Matrix.h"
#include "CrsMatrix.h"
#include <complex>
typedef std::complex<double> Cx;
typedef SizeType Sz;

// what the symbolic numbers are multiplied by: a power of two, so that all stays exact
inline double& unit()
{
	static double u = 1;
	return u;
}
inline double scaled(double x) { return unit() == 1 ? x : x * unit(); }
inline void symValue(double& x, int lo, int hi) { x = scaled(psx_dbl("v", lo, hi)); }
inline void symValue(Cx& x, int lo, int hi)
{
	double re = scaled(psx_dbl("re", lo, hi)), im = scaled(psx_dbl("im", lo, hi));
	x = Cx(re, im);
}
inline void symValue(int& x, int lo, int hi) { x = psx_int("v", lo, hi); }
inline double cj(double x) { return x; }
inline Cx cj(const Cx& x) { return Cx(x.real(), -x.imag()); }
inline bool same(double a, double b) { return a == b; }
inline bool same(const Cx& a, const Cx& b) { return (a.real() == b.real()) & (a.imag() == b.imag()); }
inline bool same(int a, int b) { return a == b; }
inline void obs(double a) { psx_observe_f(a); }
inline void obs(const Cx& a)
{
	psx_observe_f(a.real());
	psx_observe_f(a.imag());
}

// plain dense array used as the oracle
template <typename T>
struct D {
	Sz r, c;
	std::vector<T> d;
	D(Sz r_, Sz c_)
	    : r(r_)
	    , c(c_)
	    , d(r_ * c_, T(0))
	{
	}
	T& operator()(Sz i, Sz j) { return d[i * c + j]; }
	const T& operator()(Sz i, Sz j) const { return d[i * c + j]; }
};
template <typename T>
D<T> symDense(Sz r, Sz c, int lo = -3, int hi = 3)
{
	D<T> x(r, c);
	for (Sz i = 0; i < r * c; ++i)
		symValue(x.d[i], lo, hi);
	return x;
}
template <typename T>
PsimagLite::Matrix<T> toMatrix(const D<T>& x)
{
	PsimagLite::Matrix<T> m(x.r, x.c);
	for (Sz i = 0; i < x.r; ++i)
		for (Sz j = 0; j < x.c; ++j)
			m(i, j) = x(i, j);
	return m;
}
// a sparse matrix with an enumerated pattern and arbitrary stored values (zero included);
// columns are stored left to right or, with shuffle, in either direction
template <typename T>
PsimagLite::CrsMatrix<T> symSparse(Sz r, Sz c, D<T>& dense, bool shuffle = false, int lo = -3, int hi = 3, bool full = false)
{
	dense = D<T>(r, c);
	PsimagLite::CrsMatrix<T> m(r, c);
	Sz counter = 0;
	bool back = shuffle && psx_choose("back", 2);
	for (Sz i = 0; i < r; ++i) {
		m.setRow(i, counter);
		for (Sz k = 0; k < c; ++k) {
			Sz j = back ? c - 1 - k : k;
			if (!full && !psx_choose("stored", 2))
				continue;
			T v;
			symValue(v, lo, hi);
			dense(i, j) = v;
			m.pushCol(j);
			m.pushValue(v);
			++counter;
		}
	}
	m.setRow(r, counter);
	return m;
}
// structure: offsets from 0, never decreasing, ending at the number of stored entries; columns in range, no repeats
template <typename T>
void checkStructure(const PsimagLite::CrsMatrix<T>& m, Sz r, Sz c)
{
	psx_assert(m.rows() == r && m.cols() == c, "shape of the sparse result");
	if (m.rows() != r || m.cols() != c)
		psx_stop();
	psx_assert(m.getRowPtr(0) == 0, "row offsets start at zero");
	for (Sz i = 0; i < r; ++i)
		psx_assert(m.getRowPtr(i) <= m.getRowPtr(i + 1), "row offsets never decrease");
	psx_assert((Sz)m.getRowPtr(r) == m.nonZeros(), "last offset is the number of stored entries");
	for (Sz i = 0; i < r; ++i)
		for (int k = m.getRowPtr(i); k < m.getRowPtr(i + 1); ++k) {
			psx_assert((Sz)m.getCol(k) < c, "column in range");
			for (int l = m.getRowPtr(i); l < k; ++l)
				psx_assert(m.getCol(l) != m.getCol(k), "one stored entry per place");
		}
}
template <typename T>
D<T> meaning(const PsimagLite::CrsMatrix<T>& m)
{
	D<T> x(m.rows(), m.cols());
	for (Sz i = 0; i < m.rows(); ++i)
		for (int k = m.getRowPtr(i); k < m.getRowPtr(i + 1); ++k)
			x(i, m.getCol(k)) += m.getValue(k);
	return x;
}
template <typename T>
void checkIs(const PsimagLite::CrsMatrix<T>& m, const D<T>& x, const char* what)
{
	checkStructure(m, x.r, x.c);
	D<T> y = meaning(m);
	for (Sz i = 0; i < x.d.size(); ++i)
		psx_assert(same(y.d[i], x.d[i]), what);
}
template <typename T>
void checkIs(const PsimagLite::Matrix<T>& m, const D<T>& x, const char* what)
{
	psx_assert(m.rows() == x.r && m.cols() == x.c, "shape of the dense result");
	if (m.rows() != x.r || m.cols() != x.c)
		psx_stop();
	for (Sz i = 0; i < x.r; ++i)
		for (Sz j = 0; j < x.c; ++j)
			psx_assert(same(m(i, j), x(i, j)), what);
}
template <typename T>
void checkIs(const std::vector<T>& v, const std::vector<T>& x, const char* what)
{
	psx_assert(v.size() == x.size(), "length of the result");
	if (v.size() != x.size())
		psx_stop();
	for (Sz i = 0; i < x.size(); ++i)
		psx_assert(same(v[i], x[i]), what);
}
template <typename T>
D<T> dmul(const D<T>& a, const D<T>& b)
{
	D<T> x(a.r, b.c);
	for (Sz i = 0; i < a.r; ++i)
		for (Sz j = 0; j < b.c; ++j)
			for (Sz k = 0; k < a.c; ++k)
				x(i, j) += a(i, k) * b(k, j);
	return x;
}
template <typename T, typename S>
D<T> dcomb(const D<T>& a, S s, const D<T>& b, S t)
{
	D<T> x(std::max(a.r, b.r), std::max(a.c, b.c));
	for (Sz i = 0; i < a.r; ++i)
		for (Sz j = 0; j < a.c; ++j)
			x(i, j) += a(i, j) * s;
	for (Sz i = 0; i < b.r; ++i)
		for (Sz j = 0; j < b.c; ++j)
			x(i, j) += b(i, j) * t;
	return x;
}
template <typename T>
D<T> dscale(const D<T>& a, T s)
{
	D<T> x = a;
	for (Sz i = 0; i < x.d.size(); ++i)
		x.d[i] = a.d[i] * s;
	return x;
}
template <typename T>
std::vector<T> symVec(Sz n, int lo = -3, int hi = 3)
{
	std::vector<T> v(n);
	for (Sz i = 0; i < n; ++i)
		symValue(v[i], lo, hi);
	return v;
}
// ---- larger objects: a fixed pattern, numbers from a fixed sequence but for a few symbolic ones
struct Lcg {
	unsigned x;
	explicit Lcg(unsigned seed)
	    : x(seed * 2654435761u + 12345)
	{
	}
	unsigned operator()(unsigned n)
	{
		x = x * 1664525u + 1013904223u;
		return (x >> 16) % n;
	}
};
inline void lcgValue(Lcg& g, double& x) { x = double(g(7)) - 3; }
inline void lcgValue(Lcg& g, int& x) { x = int(g(7)) - 3; }
inline void lcgValue(Lcg& g, Cx& x)
{
	double re = double(g(7)) - 3, im = double(g(7)) - 3;
	x = Cx(re, im);
}
// every place with probability 1/sparse; symbolic ones are a few of them
template <typename T>
PsimagLite::CrsMatrix<T> bigSparse(Sz r, Sz c, D<T>& dense, unsigned seed, unsigned sparse = 3, Sz symbolic = 2, bool back = false)
{
	Lcg g(seed);
	dense = D<T>(r, c);
	PsimagLite::CrsMatrix<T> m(r, c);
	Sz counter = 0, where = r * c / sparse / 2, every = 5;
	for (Sz i = 0; i < r; ++i) {
		m.setRow(i, counter);
		if (i % 7 == 3)
			continue; // rows without entries
		for (Sz k = 0; k < c; ++k) {
			Sz j = back ? c - 1 - k : k;
			if (g(sparse))
				continue;
			T v;
			if (symbolic && counter >= where && counter % every == 0) {
				symValue(v, 1000, 1003);
				--symbolic;
			} else {
				lcgValue(g, v);
			}
			dense(i, j) = v;
			m.pushCol(j);
			m.pushValue(v);
			++counter;
		}
	}
	m.setRow(r, counter);
	return m;
}
template <typename T>
D<T> bigDense(Sz r, Sz c, unsigned seed, Sz symbolic = 2)
{
	Lcg g(seed);
	D<T> x(r, c);
	for (Sz i = 0; i < r * c; ++i)
		if (symbolic && i >= r * c / 2 && i % 5 == 0) {
			symValue(x.d[i], 1000, 1003);
			--symbolic;
		} else {
			lcgValue(g, x.d[i]);
		}
	return x;
}
template <typename T>
std::vector<T> bigVec(Sz n, unsigned seed, Sz symbolic = 2)
{
	return bigDense<T>(n, 1, seed, symbolic).d;
}
