// P13: SumDecomposition.
//@ bounds: 0..4 (quick) / 0..5 (thorough) parts, sums 0..5 / 0..7, every selection index; eight larger shapes (up to 40 parts, sums up to 300)
//@ case large max_instr=60000000
#include "psx.h"
#include "Vector.h"
#include <set>
#include "SumDecomposition.h"
using namespace PsimagLite;
typedef Vector<SizeType>::Type VectorSizeType;

static SizeType binomial(SizeType n, SizeType k)
{
	SizeType r = 1;
	for (SizeType i = 1; i <= k; ++i)
		r = r * (n - k + i) / i;
	return r;
}
static SizeType expected(SizeType parts, SizeType sum) { return parts == 0 ? (sum == 0 ? 1 : 0) : binomial(sum + parts - 1, parts - 1); }

PSX_CASE(all)
{
	SizeType parts = psx_choose("parts", PSX_T(5, 6)), sum = psx_choose("sum", PSX_T(6, 8));
	SumDecomposition sd(parts, sum);
	psx_assert(sd.size() == expected(parts, sum), "as many as there are compositions");
	psx_assert(sd.storedSize() == sd.size(), "all are stored");
	psx_observe(sd.size());
	// any composition whatever is listed at exactly one place
	VectorSizeType c(parts);
	SizeType s = 0;
	for (SizeType i = 0; i < parts; ++i) {
		c[i] = psx_range("part", 0, sum);
		s += c[i];
	}
	psx_assume(s == sum);
	SizeType found = 0;
	for (SizeType i = 0; i < sd.storedSize(); ++i) {
		const VectorSizeType& v = sd(i);
		psx_assert(v.size() == parts, "number of parts");
		uint64_t same = 1;
		SizeType t = 0;
		for (SizeType j = 0; j < parts; ++j) {
			same &= (v[j] == c[j]);
			t += v[j];
		}
		psx_assert(t == sum, "parts add up");
		found += same;
	}
	psx_assert(found == 1, "listed exactly once");
}
PSX_CASE(count_only)
{
	SizeType parts = psx_choose("parts", PSX_T(5, 6)), sum = psx_choose("sum", PSX_T(6, 8));
	SumDecomposition sd(parts, sum, SumDecomposition::SEL_SIZE);
	psx_assert(sd.size() == expected(parts, sum), "as many as there are compositions");
	psx_assert(sd.storedSize() == 0, "none stored");
}
PSX_CASE(one_by_index)
{
	SizeType parts = 1 + psx_choose("parts", PSX_T(3, 4)), sum = psx_choose("sum", PSX_T(5, 6));
	SizeType n = expected(parts, sum);
	SizeType i = psx_range("i", 0, n + 1);
	SumDecomposition all(parts, sum), one(parts, sum, SumDecomposition::SEL_INDEX, (int)i);
	psx_assert(one.size() == n, "as many as there are compositions");
	psx_assert(one.storedSize() == (i < n ? 1u : 0u), "only the selected one is stored");
	if (i < n) {
		SizeType k = psx_concrete(i);
		for (SizeType j = 0; j < parts; ++j)
			psx_assert(one(0)[j] == all(k)[j], "the one of that position");
	}
}
PSX_CASE(out_of_range)
{
	SizeType parts = 1 + psx_choose("parts", 3), sum = psx_choose("sum", 4);
	SumDecomposition all(parts, sum);
	SizeType i = psx_u64("i");
	psx_assume(i >= all.storedSize());
	bool threw = false;
	try {
		all(i);
	} catch (RuntimeError&) {
		threw = true;
	}
	psx_assert(threw, "an index that is too large is an error");
}

PSX_CASE(large)
{
	static const SizeType shapes[][2] = { { 2, 100 }, { 3, 25 }, { 4, 11 }, { 8, 4 }, { 12, 2 }, { 40, 1 }, { 1, 300 }, { 6, 0 } };
	SizeType which = psx_choose("shape", 8), parts = shapes[which][0], sum = shapes[which][1], n = expected(parts, sum);
	SumDecomposition sd(parts, sum);
	psx_assert(sd.size() == n && sd.storedSize() == n, "as many as there are compositions");
	std::set<VectorSizeType> seen;
	for (SizeType i = 0; i < sd.storedSize(); ++i) {
		const VectorSizeType& v = sd(i);
		SizeType s = 0;
		for (SizeType j = 0; j < v.size(); ++j)
			s += v[j];
		psx_assert(v.size() == parts && s == sum, "a composition");
		psx_assert(seen.insert(v).second, "listed once");
	}
	SizeType last[] = { 0, n / 3, n / 2, n - 1, n };
	SizeType i = last[psx_choose("i", 5)];
	SumDecomposition one(parts, sum, SumDecomposition::SEL_INDEX, (int)i), count(parts, sum, SumDecomposition::SEL_SIZE);
	psx_assert(one.size() == n && count.size() == n && count.storedSize() == 0, "as many as there are compositions");
	psx_assert(one.storedSize() == (i < n ? 1u : 0u), "only the selected one is stored");
	if (i < n)
		psx_assert(one(0) == sd(i), "the one of that position");
}
