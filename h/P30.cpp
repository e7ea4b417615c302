// P30: pseudo-random generators.
//@ src: MersenneTwister.cpp
//@ bounds: twister: one regeneration of all 624 words from every state (all words symbolic), the output transformation of every word, and the stream of the first 630/1300 outputs for every 32-bit seed; portable generator: one step from every 32-bit seed against 16807 r - 2836 q for x = 127773 q + r, the first 3 outputs of seeds 0..300/3000 (and 100000 more) against the product modulo 2^31 - 1; the real output of the twister is compared with the quotient of a word by the largest, which is between zero and one because division is correctly rounded
//@ assume: the object holds its 624 words of state in one array, found by content
#include "psx.h"
#include <vector>
#include <cstring>
#include "MersenneTwister.h"
#include "RandomForTests.h"
using namespace PsimagLite;
typedef unsigned U;

static unsigned long bits(double x)
{
	unsigned long u;
	memcpy(&u, &x, 8);
	return u;
}

// the published recurrence
static void regenerate(std::vector<U>& x)
{
	for (U k = 0; k < 624; ++k) {
		U y = (x[k] & 0x80000000u) | (x[(k + 1) % 624] & 0x7fffffffu);
		U next = x[(k + 397) % 624] ^ (y >> 1);
		x[k] = (y & 1u) ? next ^ 0x9908b0dfu : next;
	}
}
static U temper(U y)
{
	y ^= y >> 11;
	y ^= (y << 7) & 0x9d2c5680u;
	y ^= (y << 15) & 0xefc60000u;
	y ^= y >> 18;
	return y;
}
static std::vector<U> seeded(U s)
{
	std::vector<U> x(624);
	x[0] = s;
	for (U k = 1; k < 624; ++k)
		x[k] = 1812433253u * ((x[k - 1] ^ (x[k - 1] >> 30)) + k);
	return x;
}
// where the object holds its words
static size_t whereState(MersenneTwister& mt, U s)
{
	std::vector<U> x = seeded(s);
	const char* p = (const char*)&mt;
	for (size_t o = 0; o + 624 * 4 <= sizeof(mt); o += 4)
		if (memcmp(p + o, x.data(), 624 * 4) == 0)
			return o;
	return sizeof(mt);
}
PSX_CASE(twister_step)
{
	MersenneTwister mt(20111213);
	const size_t o = whereState(mt, 20111213);
	psx_assert(mt.random() == temper([] { std::vector<U> y = seeded(20111213); regenerate(y); return y[0]; }()), "first output");
	mt.seed(20111213);
	if (o == sizeof(mt))
		return; // another representation: the streams tell
	std::vector<U> x(624);
	for (int k = 0; k < 624; ++k)
		x[k] = psx_u32("word");
	memcpy((char*)&mt + o, x.data(), 624 * 4);
	regenerate(x);
	for (int k = 0; k < 624; ++k) {
		U r = mt.random();
		psx_assert(r == temper(x[k]), "outputs follow the published recurrence from any state");
	}
	// and once more
	regenerate(x);
	U r = mt.random();
	psx_assert(r == temper(x[0]), "the state is regenerated after 624 outputs");
}
PSX_CASE(twister_stream)
{
	U s = psx_u32("seed");
	MersenneTwister a(s), b(17);
	std::vector<U> x = seeded(s);
	const int n = PSX_T(630, 1300);
	int before = psx_choose("outputs before seeding again", 2) * 3;
	for (int k = 0; k < before; ++k)
		b.random();
	b.seed(s);
	for (int k = 0; k < n; ++k) {
		if (k % 624 == 0)
			regenerate(x);
		U r = a.random();
		psx_assert(r == temper(x[k % 624]), "the stream of a seed");
		psx_assert(b.random() == r, "equal seeds give equal streams");
	}
}
PSX_CASE(twister_published)
{
	// the transformation and the recurrence used as reference above give the published first output for
	// the published initial filling; see the reference implementation: seed 5489 gives 3499211612
	std::vector<U> x(624);
	x[0] = 5489;
	for (U k = 1; k < 624; ++k)
		x[k] = 1812433253u * (x[k - 1] ^ (x[k - 1] >> 30)) + k;
	regenerate(x);
	psx_assert(temper(x[0]) == 3499211612u, "reference");
	U last = 0;
	for (int r = 0; r < 17; ++r) {
		for (int k = 0; k < 624; ++k)
			if (r * 624 + k == 9999)
				last = temper(x[k]);
		regenerate(x);
	}
	psx_assert(last == 4123659995u, "reference, 10000th output");
}
PSX_CASE(twister_real)
{
	U s = psx_u32("seed");
	MersenneTwister a(s), b(s);
	for (int k = 0; k < 3; ++k) {
		double d = a();
		U r = b.random();
		// a correctly rounded quotient of a word by the largest is between zero and one
		psx_assert(bits(d) == bits((double)r / 4294967295.0), "the real output is the word divided by the largest");
	}
	psx_assert(MersenneTwister::max() == 4294967295u, "largest word");
}
// a stream per rank: equal seeds and ranks give equal streams
PSX_CASE(twister_rank)
{
	U s = psx_u32("seed");
	int rank = psx_choose("rank", 4);
	MersenneTwister a(s, rank, 4), b(s, rank, 4), c(s);
	U news = c.random();
	for (int k = 1; k < rank; ++k)
		news = c.random();
	MersenneTwister d(news);
	for (int k = 0; k < 4; ++k) {
		U r = a.random();
		psx_assert(b.random() == r, "equal seeds and ranks give equal streams");
		psx_assert(d.random() == r, "the stream of a rank is seeded by the rank-th output of the seed's stream");
	}
}

// ---- minimal standard: n = 16807 x modulo p = 2^31 - 1
PSX_CASE(portable_step)
{
	int x = (int)psx_u32("seed");
	RandomForTests<double> rng(x);
	double d = rng();
	const long p = 2147483647;
	// x = 127773 q + r, p = 16807 * 127773 + 2836: 16807 x = 16807 r - 2836 q modulo p
	psx_assert(16807L * 127773 + 2836 == p, "constants");
	int q = x / 127773, r = x % 127773;
	int n = 16807 * r - 2836 * q;
	if (n <= 0)
		n += 2147483647;
	if (n >= 2147483647)
		n = 1; // never stuck at zero
	psx_assert((n >= 1) & (n < 2147483647), "reference in range");
	psx_assert(bits(d) == bits((double)n / 2147483647.0), "the portable generator follows its recurrence");
	psx_observe(n);
}
PSX_CASE(portable_seeds)
{
	// against the product itself
	int x = psx_choose("seed", PSX_T(300, 3000)) + 100000 * psx_choose("hundred thousands", 2);
	RandomForTests<double> rng(x);
	long want = x;
	for (int k = 0; k < 3; ++k) {
		double d = rng();
		want = (16807 * want) % 2147483647;
		if (want == 0)
			want = 1;
		psx_assert(d == (double)(int)want / 2147483647.0, "the portable generator follows its recurrence");
		psx_assert((d > 0) & (d < 1), "the portable generator stays in range");
	}
}
PSX_CASE(portable_stream)
{
	int s = (int)psx_u32("seed");
	RandomForTests<double> a(s), b(s);
	for (int k = 0; k < 3; ++k) {
		double d = a(), e = b();
		psx_assert(bits(d) == bits(e), "equal seeds give equal streams");
	}
}
