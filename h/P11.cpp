// P11: population counts, binary length, exact division.
//@ src: PsimagLite.cpp
//@ bounds: BitManip::count: every 64-bit word; countKernighan: every word of at most 3 (quick) / 4 (thorough) set bits and every word below 2^9 / 2^12
//@ bounds: log2Integer: every 64-bit word; integerDivision: dividend below 2^14 / 2^20 with any divisor below 2^7 / 2^10, and any dividend with each divisor up to 12 / 40
//@ assume: integerDivision is not called with divisor zero
#include "psx.h"
#include "PsimagLite.h"
#include "BitManip.h"
using namespace PsimagLite;

static SizeType popref(uint64_t w)
{
	SizeType c = 0;
	for (int i = 0; i < 64; ++i)
		c += (w >> i) & 1;
	return c;
}
PSX_CASE(count_window)
{
	uint64_t w = psx_range("w", 0, PSX_T(0xfffff, 0xffffff));
	w <<= psx_choose("shift", PSX_T(4, 8)) * PSX_T(16, 8);
	int c = BitManip::count(w);
	psx_observe(c);
	psx_assert((uint64_t)c == popref(w), "population count");
}
// with count(0) = 0 this settles every word by induction over its bits: one more bit adds one
PSX_CASE(count_step)
{
	uint64_t w = psx_u64("w");
	SizeType i = psx_choose("bit", 64);
	uint64_t b = (uint64_t)1 << i;
	psx_assert(BitManip::count(w | b) == BitManip::count(w & ~b) + 1, "setting a clear bit adds one");
}
PSX_CASE(count_zero)
{
	psx_assert(BitManip::count(0) == 0 && BitManip::countKernighan(0) == 0, "zero has no bits");
	psx_assert(BitManip::count(~0ul) == 64 && BitManip::countKernighan(~0ul) == 64, "all ones");
}
PSX_CASE(kernighan_sparse)
{
	uint64_t w = 0;
	SizeType k = psx_choose("k", PSX_T(4, 5)), last = 0;
	for (SizeType i = 0; i < k; ++i) {
		SizeType p = psx_range("p", 0, 63);
		psx_assume(i == 0 || p > last);
		last = p;
		w |= (uint64_t)1 << p;
	}
	psx_assert(BitManip::countKernighan(w) == k, "population count");
	psx_assert((SizeType)BitManip::count(w) == k, "both methods agree");
}
PSX_CASE(kernighan_small)
{
	uint64_t w = psx_range("w", 0, PSX_T(511, 4095));
	SizeType sh = psx_choose("shift", PSX_T(3, 6));
	w <<= sh * 9;
	psx_assert(BitManip::countKernighan(w) == popref(w), "population count");
}
PSX_CASE(log2)
{
	uint64_t w = psx_u64("w");
	SizeType n = log2Integer(w);
	psx_observe(n);
	psx_assert(n <= 64, "at most 64 digits");
	psx_assert((w == 0) == (n == 0), "zero has no digits");
	if (n > 0)
		psx_assert((w >> (n - 1)) == 1, "leading digit");
}
static void divide(uint64_t a, uint64_t b)
{
	bool threw = false;
	SizeType q = 0;
	try {
		q = integerDivision(a, b);
	} catch (RuntimeError&) {
		threw = true;
	}
	psx_observe(threw);
	psx_observe(q);
	if (threw)
		psx_assert(a % b != 0, "error only when there is a remainder");
	else
		psx_assert(q * b == a && q <= a, "exact quotient");
}
PSX_CASE(division)
{
	uint64_t a = psx_range("a", 0, PSX_T((1u << 14) - 1, (1u << 20) - 1));
	uint64_t b = psx_range("b", 1, PSX_T((1u << 7) - 1, (1u << 10) - 1));
	divide(a, b);
}
PSX_CASE(division_any_dividend)
{
	uint64_t b = 1 + psx_choose("b", PSX_T(12, 40));
	divide(psx_u64("a"), b);
}
