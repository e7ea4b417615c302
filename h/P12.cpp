// P12: Permutations.
//@ bounds: sequences of 0..4 (quick) / 0..5 (thorough) arbitrary 64-bit values, repeats included; all orderings of 5, 6 (7) distinct values; sequences of 16 to a few hundred fixed values with a few symbolic ones
//@ case longer max_instr=60000000
#include "psx.h"
#include "Vector.h"
#include "Permutations.h"
using namespace PsimagLite;
typedef Vector<SizeType>::Type VectorSizeType;

// the arrangement as ranks among the (sorted) starting values
static VectorSizeType ranks(const Permutations<VectorSizeType>& p, const VectorSizeType& start, const VectorSizeType& rank)
{
	VectorSizeType v(p.size(), 1000);
	for (SizeType i = 0; i < p.size(); ++i) {
		for (SizeType k = 0; k < start.size(); ++k)
			if (psx_concrete(start[k] == p[i])) {
				v[i] = rank[k];
				break;
			}
		psx_assert(v[i] < 1000, "only values of the sequence");
	}
	return v;
}
// whether b is the next arrangement after a in lexicographic order (independent formulation):
// common prefix, then b has the smallest larger value available in a's non-increasing tail, then ascending
static void checkStep(const VectorSizeType& a, const VectorSizeType& b)
{
	SizeType n = a.size();
	SizeType k = 0;
	while (k < n && a[k] == b[k])
		++k;
	psx_assert(k < n, "every step changes the arrangement");
	if (k >= n)
		return;
	psx_assert(a[k] < b[k], "every step goes up");
	for (SizeType i = k + 1; i + 1 < n; ++i) {
		psx_assert(a[i] >= a[i + 1], "the old tail was exhausted");
		psx_assert(b[i] <= b[i + 1], "the new tail starts from its first arrangement");
	}
	for (SizeType i = k + 1; i < n; ++i)
		psx_assert(!(a[i] > a[k] && a[i] < b[k]), "no arrangement is skipped");
	// same multiset
	for (SizeType i = 0; i < n; ++i) {
		SizeType ca = 0, cb = 0;
		for (SizeType j = 0; j < n; ++j) {
			ca += (a[j] == a[i]);
			cb += (b[j] == a[i]);
		}
		psx_assert(ca == cb, "a rearrangement of the same values");
	}
}
static void walk(const VectorSizeType& orig, bool distinct)
{
	SizeType n = orig.size();
	Permutations<VectorSizeType> p(orig);
	psx_assert(p.size() == n, "length");
	VectorSizeType start(n), rank(n, 0);
	for (SizeType i = 0; i < n; ++i)
		start[i] = p[i];
	for (SizeType i = 0; i + 1 < n; ++i) {
		psx_assert(start[i] <= start[i + 1], "starts from the first arrangement");
		rank[i + 1] = rank[i] + psx_concrete(start[i] != start[i + 1]);
	}
	for (SizeType i = 0; i < n; ++i) {
		SizeType ca = 0, cb = 0;
		for (SizeType j = 0; j < n; ++j) {
			ca += psx_concrete(orig[j] == orig[i]);
			cb += psx_concrete(start[j] == orig[i]);
		}
		psx_assert(ca == cb, "the values given");
	}
	VectorSizeType a = ranks(p, start, rank);
	SizeType steps = 1, fact = 1;
	for (SizeType i = 2; i <= n; ++i)
		fact *= i;
	while (p.increase()) {
		++steps;
		psx_assert(steps <= fact, "ends");
		VectorSizeType b = ranks(p, start, rank);
		checkStep(a, b);
		a = b;
	}
	for (SizeType i = 0; i + 1 < n; ++i)
		psx_assert(a[i] >= a[i + 1], "ends at the last arrangement");
	VectorSizeType b = ranks(p, start, rank);
	for (SizeType i = 0; i < n; ++i)
		psx_assert(a[i] == b[i], "the failing step changes nothing");
	if (distinct)
		psx_assert(steps == fact, "n! arrangements");
	psx_observe(steps);
}
PSX_CASE(arbitrary)
{
	SizeType n = psx_choose("n", PSX_T(5, 6));
	VectorSizeType v(n);
	for (SizeType i = 0; i < n; ++i)
		v[i] = psx_u64("v");
	walk(v, false);
}
PSX_CASE(distinct)
{
	SizeType n = 1 + psx_choose("n", PSX_T(6, 7));
	VectorSizeType v(n);
	SizeType base = psx_range("base", 0, 1000);
	for (SizeType i = 0; i < n; ++i)
		v[i] = base + 3 * ((i * 5 + 2) % n + (n == 5 ? i : 0));
	for (SizeType i = 0; i < n; ++i)
		for (SizeType j = 0; j < i; ++j)
			psx_assume(v[i] != v[j]);
	walk(v, true);
}

// longer sequences: the first and, from the end, a reversed run are far too long; the first steps of them
PSX_CASE(longer)
{
	SizeType n = 8 + psx_choose("n", 2) * 5, kinds = psx_choose("repeats", 2) ? 4 : n;
	VectorSizeType v(n), a(n), b(n);
	SizeType base = psx_range("base", 0, 1000);
	for (SizeType i = 0; i < n; ++i)
		v[i] = base + (i * 5 + 3) % kinds;
	Permutations<VectorSizeType> p(v);
	psx_assert(p.size() == n, "length");
	for (SizeType i = 0; i < n; ++i)
		a[i] = p[i] - base;
	for (SizeType i = 0; i + 1 < n; ++i)
		psx_assert(a[i] <= a[i + 1], "starts from the first arrangement");
	for (SizeType steps = 0; steps < PSX_T(200, 2000); ++steps) {
		psx_assert(p.increase(), "there are more arrangements");
		for (SizeType i = 0; i < n; ++i)
			b[i] = p[i] - base;
		checkStep(a, b);
		a = b;
	}
}
