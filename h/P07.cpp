// P07: Sort.
//@ bounds: vectors of length 0..5 (quick) / 0..6 (thorough) with arbitrary 64-bit unsigned values, of length 0..4 / 0..5 with arbitrary signed integers, doubles and pairs; 17..20 elements of which 2 (3) are arbitrary (the partitioning part of the library sort); 40 to 257 fixed integers and doubles with repeats and one arbitrary value
//@ case large max_instr=60000000
//@ case large_doubles max_instr=60000000
#include "psx.h"
#include "Vector.h"
#include "Sort.h"
using namespace PsimagLite;

template <typename VectorType>
static void checkSorted(const VectorType& orig, const VectorType& x, const Vector<SizeType>::Type& iperm)
{
	SizeType n = orig.size();
	psx_assert(x.size() == n && iperm.size() == n, "lengths are kept");
	for (SizeType i = 0; i + 1 < n; ++i)
		psx_assert(!(x[i + 1] < x[i]), "nondecreasing order");
	Vector<SizeType>::Type seen(n, 0);
	for (SizeType i = 0; i < n; ++i) {
		SizeType k = iperm[i];
		psx_assert(k < n, "index map names an input element");
		k = psx_concrete(k);
		psx_assert(seen[k] == 0, "no input element is used twice");
		seen[k] = 1;
		psx_assert(x[i] == orig[k], "output element is the input element it names");
		psx_observe(k);
	}
}
template <typename VectorType>
static void run(const VectorType& orig)
{
	VectorType x(orig);
	Vector<SizeType>::Type iperm(x.size(), 99);
	Sort<VectorType> s;
	s.sort(x, iperm);
	checkSorted(orig, x, iperm);
	psx_cover("sorted");
}
PSX_CASE(words)
{
	SizeType n = psx_choose("n", PSX_T(6, 7));
	Vector<SizeType>::Type v(n);
	for (SizeType i = 0; i < n; ++i)
		v[i] = psx_u64("v");
	run(v);
}
PSX_CASE(ints)
{
	SizeType n = psx_choose("n", PSX_T(5, 6));
	Vector<int>::Type v(n);
	for (SizeType i = 0; i < n; ++i)
		v[i] = psx_int("v", -2147483647, 2147483647);
	run(v);
}
PSX_CASE(doubles)
{
	SizeType n = psx_choose("n", PSX_T(5, 6));
	Vector<double>::Type v(n);
	for (SizeType i = 0; i < n; ++i)
		v[i] = psx_dbl("v", -1000000, 1000000) * 0.25;
	run(v);
}
PSX_CASE(pairs)
{
	SizeType n = psx_choose("n", PSX_T(4, 5));
	Vector<std::pair<int, SizeType>>::Type v(n);
	for (SizeType i = 0; i < n; ++i)
	{
		v[i].first = psx_int("a", -1, 1);
		v[i].second = psx_range("b", 0, 1);
	}
	run(v);
}
static void longVector(SizeType n, SizeType nsym)
{
	Vector<SizeType>::Type v(n);
	SizeType shape = psx_choose("shape", 3);
	for (SizeType i = 0; i < n; ++i)
		v[i] = shape == 0 ? 10 * i : shape == 1 ? 10 * (n - i) : 10 * ((i * 7) % n);
	for (SizeType k = 0; k < nsym; ++k)
		v[(k * 11 + 3) % n] = psx_range("v", 0, 10 * n);
	run(v);
}
PSX_CASE(long17) { longVector(17, PSX_T(1, 2)); }
PSX_CASE(long18) { longVector(18, PSX_T(1, 2)); }
PSX_CASE(long20) { longVector(20, PSX_T(1, 2)); }
PSX_CASE(long40) { longVector(40, 1); }
// only the leading part when asked to
PSX_CASE(leading_part)
{
	SizeType n = 1 + psx_choose("n", PSX_T(4, 5));
	SizeType k = 1 + psx_choose("k", n);
	Vector<SizeType>::Type v(n), iperm(k, 99);
	for (SizeType i = 0; i < n; ++i)
		v[i] = psx_u64("v");
	Vector<SizeType>::Type x(v);
	Sort<Vector<SizeType>::Type> s;
	s.sort(x, iperm, k);
	for (SizeType i = k; i < n; ++i)
		psx_assert(x[i] == v[i], "the rest is left alone");
	Vector<SizeType>::Type a(v.begin(), v.begin() + k), b(x.begin(), x.begin() + k);
	checkSorted(a, b, iperm);
}

// longer vectors, repeats, one value arbitrary
PSX_CASE(large)
{
	static const SizeType lengths[] = { 64, 100, 257 };
	SizeType n = lengths[psx_choose("n", 3)], shape = psx_choose("shape", 4), at = psx_choose("symbolic one", 3) * (n / 2 - 1);
	Vector<int>::Type v(n);
	for (SizeType i = 0; i < n; ++i)
		v[i] = shape == 0 ? (int)(i * i % 13) : shape == 1 ? (int)i : shape == 2 ? -(int)i : (int)(i * 7919 % 1009) - 500;
	v[at] = psx_choose("kind", 2) ? psx_int("v", -3, 3) : psx_int("v", 1000, 1002);
	run(v);
}
PSX_CASE(large_doubles)
{
	SizeType n = 40 + psx_choose("n", 3) * 37;
	Vector<double>::Type v(n);
	for (SizeType i = 0; i < n; ++i)
		v[i] = (double)(i * 31 % 17) - 8.5;
	v[n / 3] = psx_dbl("v", -2, 2);
	run(v);
}
