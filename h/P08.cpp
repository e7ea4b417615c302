// P08: sparse vectors against the dense vectors they stand for.
//@ bounds: every position enumerated, values symbolic; up to 3 insertions (quick; 4 thorough) per vector of any index below 3 (quick; 4 thorough) and any integer value in [-3,3] (parts in [-2,2] for complex) in any order, repeats included; partitions of up to 3 parts; larger ones of fixed shape and pattern (tens of rows, hundreds of entries) with a few symbolic values; numbers near 1e-6 too
//@ assume: isAlmostZero, which SparseVector::operator== takes from the application, is supplied by the harness as norm(x) <= eps
//@ case large_real max_instr=60000000
//@ case large_complex max_instr=60000000
#include "mat.h"
namespace PsimagLite {
template <typename T>
bool isAlmostZero(const T& x, double eps)
{
	return PsimagLite::norm(x) <= eps;
}
}
using PsimagLite::isAlmostZero;
#include "SparseVector.h"
using namespace PsimagLite;

static const Sz N = PSX_T(3, 4);

template <typename T>
static SparseVector<T> insertions(Sz k, std::vector<T>& d, int lo = -3, int hi = 3)
{
	d.assign(N, T(0));
	SparseVector<T> v(N);
	for (Sz i = 0; i < k; ++i) {
		Sz at = psx_choose("at", N);
		T x;
		symValue(x, lo, hi);
		Sz r = v.add(at, x);
		psx_assert(r == i, "position of the new entry");
		for (Sz j = 0; j < N; ++j)
			d[j] = j == at ? d[j] + x : d[j];
	}
	return v;
}
// what the stored entries add up to
template <typename T>
static std::vector<T> mean(const SparseVector<T>& v)
{
	std::vector<T> d(v.size(), T(0));
	for (Sz i = 0; i < v.indices(); ++i) {
		psx_assert(v.index(i) < v.size(), "stored index in range");
		if (!(v.index(i) < v.size()))
			psx_stop();
		Sz at = v.index(i);
		T x = v.value(i);
		for (Sz j = 0; j < d.size(); ++j)
			d[j] = j == at ? d[j] + x : d[j];
	}
	return d;
}
template <typename T>
static void isSorted(const SparseVector<T>& v)
{
	for (Sz i = 1; i < v.indices(); ++i)
		psx_assert(v.index(i - 1) < v.index(i), "indices increase strictly after sorting");
}
template <typename T>
static void sorting(Sz top)
{
	std::vector<T> d;
	Sz k = psx_choose("k", top + 1);
	SparseVector<T> v = insertions<T>(k, d);
	checkIs(mean(v), d, "before sorting");
	v.sort();
	isSorted(v);
	checkIs(mean(v), d, "after sorting and merging");
	psx_assert(v.size() == N, "size");
	v.sort();
	checkIs(mean(v), d, "after sorting again");
	std::vector<T> c(psx_choose("dest", 2) ? N + 1 : 0, T(9));
	v.toChunk(c, 0, N);
	checkIs(c, d, "as a dense chunk");
	for (Sz i = 0; i < N; ++i)
		obs(c[i]);
}
PSX_CASE(sort_real) { sorting<double>(PSX_T(3, 4)); }
PSX_CASE(sort_complex) { sorting<Cx>(PSX_T(2, 3)); }

template <typename T>
static void dense()
{
	Sz n = psx_choose("n", 5);
	std::vector<T> d = symVec<T>(n);
	SparseVector<T> v(d);
	psx_assert(v.size() == n, "size");
	checkIs(mean(v), d, "from a dense vector");
	Sz nz = 0;
	for (Sz i = 0; i < n; ++i)
		nz += !same(d[i], T(0));
	psx_assert(v.indices() == nz, "only the entries that are not zero are stored");
	v.sort();
	isSorted(v);
	checkIs(mean(v), d, "from a dense vector, sorted");
	psx_observe(v.indices());
}
PSX_CASE(dense_real) { dense<double>(); }
PSX_CASE(dense_complex) { dense<Cx>(); }

PSX_CASE(chunks)
{
	Sz n = 1 + psx_choose("n", 4);
	Sz off = psx_choose("off", n), len = psx_choose("len", n - off + 1);
	std::vector<double> c = symVec<double>(len);
	SparseVector<double> v(3);
	if (psx_choose("used", 2)) {
		v.add(1, 5.0);
		v.add(0, 4.0);
		v.sort();
	}
	v.fromChunk(c, off, n);
	std::vector<double> d(n, 0.0);
	for (Sz i = 0; i < len; ++i)
		d[off + i] = c[i];
	psx_assert(v.size() == n, "size");
	checkIs(mean(v), d, "from a chunk");
	if (psx_choose("sort", 2))
		v.sort();
	checkIs(mean(v), d, "from a chunk, sorted");
	// any window, checked
	Sz i0 = psx_choose("i0", n), total = psx_choose("total", n - i0 + 1);
	bool fits = true;
	for (Sz i = 0; i < v.indices(); ++i)
		fits = fits & (v.index(i) >= i0 && v.index(i) < i0 + total);
	std::vector<double> w(psx_choose("dest", 2) ? 2 : 0, 9.0);
	bool thrown = false;
	try {
		v.toChunk(w, i0, total, true);
	} catch (RuntimeError&) {
		thrown = true;
	}
	psx_assert(thrown == !fits, "a window that leaves out an entry is refused");
	if (!thrown) {
		psx_assert(w.size() == total, "length of the window");
		for (Sz i = 0; i < total && i < w.size(); ++i)
			psx_assert(w[i] == d[i0 + i], "window of the dense vector");
		psx_observe(total);
	}
}

struct Parts {
	std::vector<Sz> b;
	Sz partition() const { return b.size(); }
	Sz partition(Sz i) const { return b[i]; }
};
PSX_CASE(partitions)
{
	Parts p;
	p.b.push_back(0);
	Sz np = 1 + psx_choose("np", 3);
	for (Sz i = 0; i < np; ++i)
		p.b.push_back(p.b.back() + 1 + psx_choose("size", 2));
	Sz n = p.b.back();
	SparseVector<double> v(n);
	Sz k = 1 + psx_choose("k", 2);
	Sz part[2];
	std::vector<double> d(n, 0.0);
	for (Sz i = 0; i < k; ++i) {
		Sz at = psx_range("at", 0, n - 1);
		double x = psx_dbl("x", -3, 3);
		v.add(at, x);
		part[i] = 0;
		for (Sz q = 0; q < np; ++q)
			part[i] = at >= p.b[q] ? q : part[i];
		for (Sz j = 0; j < n; ++j)
			d[j] = j == at ? x : d[j];
		if (i == 1)
			psx_assume(v.index(0) != v.index(1));
	}
	bool one = k == 1 || part[0] == part[1];
	bool thrown = false;
	Sz got = 0, got2 = 0;
	std::vector<double> c(1, 9.0);
	try {
		got = v.findPartition(p);
		got2 = v.toChunk(c, p);
	} catch (RuntimeError&) {
		thrown = true;
	}
	psx_assert(thrown == !one, "refused when it extends over several partitions");
	if (!thrown) {
		psx_assert(got == part[0] && got2 == part[0], "partition that holds the entries");
		got = psx_concrete(got);
		psx_assert(c.size() == p.b[got + 1] - p.b[got], "length of the partition");
		for (Sz i = 0; i < c.size(); ++i)
			psx_assert(c[i] == d[p.b[got] + i], "part of the dense vector");
		psx_observe(got);
	}
}
PSX_CASE(empty_partition)
{
	Parts p;
	p.b.push_back(0);
	p.b.push_back(2);
	SparseVector<double> v(2);
	bool thrown = false;
	try {
		v.findPartition(p);
	} catch (RuntimeError&) {
		thrown = true;
	}
	psx_assert(thrown, "no partition for a vector without entries");
}

template <typename T>
static void products(Sz top)
{
	std::vector<T> d, e;
	SparseVector<T> v = insertions<T>(psx_choose("k", top + 1), d, -2, 2), w = insertions<T>(psx_choose("l", top + 1), e, -2, 2);
	v.sort();
	w.sort();
	T s = v * w, want = 0;
	for (Sz i = 0; i < N; ++i)
		want += d[i] * cj(e[i]);
	psx_assert(same(s, want), "scalar product, the second factor conjugated");
	obs(s);
}
PSX_CASE(products_real) { products<double>(2); }
PSX_CASE(products_complex) { products<Cx>(PSX_T(1, 2)); }
PSX_CASE(products_dense)
{
	std::vector<double> d = symVec<double>(3), e = symVec<double>(3);
	SparseVector<double> v(d), w(e);
	v.sort();
	w.sort();
	psx_assert(v.scalarProduct(w) == d[0] * e[0] + d[1] * e[1] + d[2] * e[2], "scalar product");
	psx_observe_f(v.scalarProduct(w));
}

template <typename T>
static void arithmetic(Sz top)
{
	std::vector<T> d, e, x(N);
	SparseVector<T> v = insertions<T>(psx_choose("k", top + 1), d, -2, 2), w = insertions<T>(psx_choose("l", top + 1), e, -2, 2);
	switch (psx_choose("form", 4)) {
	case 0: {
		SparseVector<T> r = (v -= w);
		for (Sz i = 0; i < N; ++i)
			x[i] = d[i] - e[i];
		checkIs(mean(v), x, "v -= w");
		v.sort();
		checkIs(mean(v), x, "v -= w, sorted");
		checkIs(mean(r), x, "its value");
		checkIs(mean(w), e, "operand unmodified");
		break;
	}
	case 1: {
		T s;
		symValue(s, -2, 2);
		SparseVector<T> r = s * v;
		for (Sz i = 0; i < N; ++i)
			x[i] = s * d[i];
		checkIs(mean(r), x, "s * v");
		checkIs(mean(v), d, "operand unmodified");
		v *= s;
		checkIs(mean(v), x, "v *= s");
		v.sort();
		checkIs(mean(v), x, "v *= s, sorted");
		break;
	}
	case 2:
		v -= v;
		checkIs(mean(v), x, "v -= v");
		break;
	default:
		v.sort();
		v -= w;
		v.sort();
		isSorted(v);
		for (Sz i = 0; i < N; ++i)
			x[i] = d[i] - e[i];
		checkIs(mean(v), x, "sorted v -= w, sorted");
		v.clear();
		checkIs(mean(v), std::vector<T>(N), "cleared");
		v.resize(2);
		checkIs(mean(v), std::vector<T>(2), "resized");
	}
	for (Sz i = 0; i < v.indices(); ++i)
		psx_observe(v.index(i));
}
PSX_CASE(arithmetic_real) { arithmetic<double>(2); }
PSX_CASE(arithmetic_complex) { arithmetic<Cx>(1); }

// equality is equality of the dense vectors (differences are at least one here, far above the tolerance)
PSX_CASE(equality)
{
	std::vector<double> d, e;
	SparseVector<double> v = insertions<double>(psx_choose("k", 3), d, -2, 2), w = insertions<double>(psx_choose("l", PSX_T(3, 4)), e, -2, 2);
	v.sort();
	w.sort();
	if (psx_choose("scaled", 2)) {
		double s = psx_dbl("s", -1, 1);
		v *= s;
		for (Sz i = 0; i < N; ++i)
			d[i] *= s;
	}
	bool eq = true;
	for (Sz i = 0; i < N; ++i)
		eq = eq & (d[i] == e[i]);
	bool got = v == w;
	psx_assert(got == eq, "equality");
	psx_observe(got);
}
PSX_CASE(equality_size)
{
	SparseVector<double> v(3), w(4);
	double x = psx_dbl("x", -2, 2);
	if (psx_choose("k", 2)) {
		v.add(1, x);
		w.add(1, x);
	}
	v.sort();
	w.sort();
	psx_assert(!(v == w), "vectors of different sizes are not equal");
}

// longer vectors and more insertions
template <typename T>
static void big(Sz n, Sz k)
{
	Lcg g(n + k);
	std::vector<T> d(n, T(0)), e(n, T(0));
	SparseVector<T> v(n), w(n);
	for (Sz i = 0; i < k; ++i) {
		Sz at = g(n), bt = g(n / 2) * 2;
		T x, y;
		lcgValue(g, x);
		lcgValue(g, y);
		if (i == k / 2 || i == k - 2)
			symValue(x, 1000, 1003);
		if (i == k / 3)
			symValue(y, 1000, 1003);
		v.add(at, x);
		w.add(bt, y);
		d[at] += x;
		e[bt] += y;
	}
	std::vector<T> z(n, T(0)), x(n);
	auto dense = [&](const SparseVector<T>& u) {
		std::vector<T> r(u.size(), T(0));
		for (Sz i = 0; i < u.indices(); ++i)
			r[u.index(i)] += u.value(i);
		return r;
	};
	checkIs(dense(v), d, "before sorting");
	v.sort();
	w.sort();
	isSorted(v);
	isSorted(w);
	checkIs(dense(v), d, "after sorting and merging");
	T p = 0;
	for (Sz i = 0; i < n; ++i)
		p += d[i] * cj(e[i]);
	psx_assert(same(v * w, p), "scalar product, the second factor conjugated");
	std::vector<T> c(1, T(9));
	v.toChunk(c, 0, n);
	checkIs(c, d, "as a dense chunk");
	T s;
	symValue(s, 1, 3);
	SparseVector<T> r = s * v;
	for (Sz i = 0; i < n; ++i)
		x[i] = s * d[i];
	checkIs(dense(r), x, "s * v");
	v -= w;
	v.sort();
	isSorted(v);
	for (Sz i = 0; i < n; ++i)
		x[i] = d[i] - e[i];
	checkIs(dense(v), x, "v -= w");
	SparseVector<T> from(e);
	from.sort();
	checkIs(dense(from), e, "from a dense vector");
	psx_assert(from == w, "equality");
}
PSX_CASE(large_real)
{
	if (psx_choose("k", 2))
		big<double>(40, 60);
	else
		big<double>(300, 20);
}
PSX_CASE(large_complex) { big<Cx>(24, 30); }

// numbers near 1e-6 count
PSX_CASE(small)
{
	unit() = 1. / (1 << 20);
	switch (psx_choose("what", 4)) {
	case 0: sorting<double>(2); break;
	case 1: sorting<Cx>(2); break;
	case 2: dense<Cx>(); break;
	default: products<double>(2);
	}
}
