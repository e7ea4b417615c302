// P10: PackIndices is a bijection between pairs and numbers.
//@ bounds: first dimension 1..2^12 (quick) / 2^16 (thorough) and packed index below 2^24 / 2^32 as symbolic words; first dimension 1..12 (40) exactly with any packed index below 2^63
//@ bounds: pack through a permutation of at most 6 entries with arbitrary contents
#include "psx.h"
#include "Vector.h"
#include "PackIndices.h"
using namespace PsimagLite;

// every (size, number) pair with a symbolic size
PSX_CASE(unpack_symbolic_size)
{
	SizeType n = psx_range("n", 1, PSX_T(1 << 12, 1 << 16));
	SizeType ind = psx_range("ind", 0, PSX_T((1ull << 24) - 1, (1ull << 32) - 1));
	PackIndices p(n);
	SizeType x = 77777, y = 77777;
	p.unpack(x, y, ind);
	psx_assert(x < n, "first index below the first size");
	psx_assert(x + y * n == ind, "packing the unpacked pair gives the number back");
	psx_observe(x);
	psx_observe(y);
}
// every number below 2^63 for each small size
PSX_CASE(unpack_any_number)
{
	SizeType n = 1 + psx_choose("n", PSX_T(12, 40));
	SizeType ind = psx_range("ind", 0, 0x7fffffffffffffffull);
	PackIndices p(n);
	SizeType x = 0, y = 0;
	p.unpack(x, y, ind);
	psx_assert(x < n, "first index below the first size");
	psx_assert(y <= ind, "second index not above the number");
	psx_assert(x + y * n == ind, "packing the unpacked pair gives the number back");
}
// pairs to numbers and back
PSX_CASE(pair_roundtrip)
{
	SizeType n = 1 + psx_choose("n", PSX_T(12, 40));
	SizeType x0 = psx_range("x0", 0, PSX_T(12, 40) - 1), y0 = psx_range("y0", 0, 0xffffffffull);
	psx_assume(x0 < n);
	PackIndices p(n);
	SizeType x, y;
	p.unpack(x, y, x0 + y0 * n);
	psx_assert(x == x0 && y == y0, "unpacking a packed pair gives the pair");
}
// pack looks the pair's number up in the permutation
PSX_CASE(pack_permutation)
{
	SizeType n = 1 + psx_choose("n", PSX_T(4, 6)), m = 1 + psx_choose("m", PSX_T(3, 5));
	Vector<SizeType>::Type perm(n * m);
	for (SizeType i = 0; i < n * m; ++i)
		perm[i] = psx_u64("perm");
	PackIndices p(n);
	SizeType x = psx_range("x", 0, n - 1), y = psx_range("y", 0, m - 1);
	SizeType r = p.pack(x, y, perm);
	SizeType want = 0;
	for (SizeType j = 0; j < m; ++j)
		for (SizeType i = 0; i < n; ++i)
			want = (i == x && j == y) ? perm[i + n * j] : want;
	psx_assert(r == want, "pack returns the entry of the pair's number");
	psx_observe(r);
}
// with the identity permutation pack and unpack are mutual inverses and distinct pairs stay distinct
PSX_CASE(pack_injective)
{
	SizeType n = 1 + psx_choose("n", PSX_T(4, 6)), m = 1 + psx_choose("m", PSX_T(3, 5));
	Vector<SizeType>::Type perm(n * m);
	for (SizeType i = 0; i < n * m; ++i)
		perm[i] = i;
	PackIndices p(n);
	SizeType x = psx_range("x", 0, n - 1), y = psx_range("y", 0, m - 1);
	SizeType r = p.pack(x, y, perm);
	psx_assert(r < n * m, "packed number below the product of the sizes");
	SizeType x2, y2;
	p.unpack(x2, y2, r);
	psx_assert(x2 == x && y2 == y, "unpack inverts pack");
}
