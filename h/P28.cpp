// P28: splitting a lattice into blocks covers every site exactly once.
//@ src: PsimagLite.cpp
//@ bounds: every number of sites 1..24/40 and block size 1..8/13; classification for every triple of machine words
//@ assume: the lattice reads its parameters from an input source that returns what was put there
#include "geo.h"
#include "Geometry/Geometry.h"
using namespace PsimagLite;
struct Globals {
	enum class ConnectionEnum { SYSTEM_SYSTEM,
		                    SYSTEM_ENVIRON,
		                    ENVIRON_SYSTEM,
		                    ENVIRON_ENVIRON };
};
typedef GeoInput<double> In;
typedef Geometry<double, In, Globals> Geo;
typedef std::vector<SizeType> V;

static void describe(In& io, SizeType L)
{
	io.num["TotalNumberOfSites"] = L;
	io.num["NumberOfTerms"] = 1;
	io.num["DegreesOfFreedom"] = 1;
	io.text["GeometryKind"] = "star";
	io.text["GeometryOptions"] = "ConstantValues";
	io.vec["dir0:Connectors"].assign(1, 1.0);
}
// the geometry keeps only the number of sites for the split, so that it may be a symbolic number
PSX_CASE(split)
{
	const SizeType max = PSX_T(24, 40);
	SizeType b = 1 + psx_choose("block", PSX_T(8, 13)), all = psx_choose("all in the system", 2);
	SizeType L = psx_range("sites", 1, max);
	In io;
	describe(io, L);
	Geo g(io);
	psx_assert(g.numberOfSites() == L, "number of sites");
	V S, E;
	std::vector<V> X, Y;
	bool ok = false;
	try {
		g.split(b, S, X, Y, E, all);
		ok = true;
	} catch (std::exception&) {
	}
	bool accepted = (b == 1) | ((L % b == 0) & (L / b >= 3));
	psx_assert(ok == accepted, "a lattice of whole blocks, at least three, is split; others are errors");
	if (!ok)
		return;
	std::vector<int> seen(max, 0);
	auto take = [&](SizeType s) {
		psx_assert(s < L, "pieces name sites of the lattice");
		++seen[s];
	};
	psx_assert(S.size() == b, "size of the left block");
	for (SizeType k = 0; k < S.size(); ++k) {
		psx_assert(S[k] == k, "the left block has the first sites");
		take(S[k]);
	}
	psx_assert(Y.size() == 0 || !all, "all pieces are in the system if so requested");
	SizeType next = b;
	for (SizeType p = 0; p < X.size(); ++p) {
		psx_assert(X[p].size() == b, "size of a piece");
		SizeType sum = 0;
		for (SizeType k = 0; k < b; ++k) {
			take(X[p][k]);
			psx_assert((X[p][k] >= next) & (X[p][k] < next + b), "the pieces of the system follow the left block one by one");
			if (!all)
				psx_assert(X[p][k] == next + k, "sites of a piece of the system are ascending");
			sum += X[p][k];
		}
		next += b;
	}
	SizeType last = L > b ? L - b : 0;
	for (SizeType p = 0; p < Y.size(); ++p) {
		psx_assert(Y[p].size() == b, "size of a piece");
		for (SizeType k = 0; k < b; ++k) {
			take(Y[p][k]);
			psx_assert(Y[p][k] == last - b + k, "the pieces of the environment go from the right block inwards");
		}
		last -= b;
	}
	for (SizeType k = 0; k < E.size(); ++k) {
		take(E[k]);
		psx_assert(E[k] == L - E.size() + k, "the right block has the last sites");
	}
	if (L > b)
		psx_assert(E.size() == b || L == 2 * b, "size of the right block");
	for (SizeType s = 0; s < max; ++s)
		if (s < L)
			psx_assert(seen[s] == 1, "every site is in exactly one piece");
	if (!all && b > 0) // the system's half
		psx_assert(next >= L / 2, "the system reaches the middle");
	psx_observe(X.size());
}
PSX_CASE(kind)
{
	In io;
	describe(io, 4);
	Geo g(io);
	SizeType smax = psx_u64("smax"), i = psx_u64("i"), j = psx_u64("j");
	psx_assume(smax < ~SizeType(0));
	bool si = i <= smax, sj = j <= smax;
	typedef Globals::ConnectionEnum K;
	K k = g.connectionKind(smax, i, j);
	K want = si ? (sj ? K::SYSTEM_SYSTEM : K::SYSTEM_ENVIRON) : (sj ? K::ENVIRON_SYSTEM : K::ENVIRON_ENVIRON);
	psx_assert(k == want, "kind of the connection of two sites");
}
// two terms: sites are connected if they are in one of the terms; couplings are those of the term asked for
PSX_CASE(terms)
{
	SizeType L = 6;
	In io;
	io.num["TotalNumberOfSites"] = L;
	io.num["NumberOfTerms"] = 2;
	double v = psx_dbl("chain", -50, 50), w = psx_dbl("long", -50, 50);
	for (int t = 0; t < 2; ++t) {
		std::string p = t ? "gt1:" : "gt0:";
		io.num[p + "DegreesOfFreedom"] = 1;
		io.text[p + "GeometryKind"] = "chain";
		io.text[p + "GeometryOptions"] = "ConstantValues";
		io.num[p + "LongChainDistance"] = 1 + t * 2;
		io.vec[p + "dir0:Connectors"].assign(1, t ? w : v);
	}
	Geo g(io);
	SizeType m = psx_choose("smax", L - 1);
	psx_assert(g.terms() == 2, "number of terms");
	for (SizeType i = 0; i < L; ++i)
		for (SizeType j = 0; j < L; ++j) {
			SizeType d = i < j ? j - i : i - j;
			psx_assert(g.connected(m, m + 1, i, j) == (d == 1 || d == 3), "connected in one of the terms");
			for (SizeType t = 0; t < 2; ++t) {
				double want = d == 1 + 2 * t ? (t ? w : v) : 0;
				psx_assert(g(i, 0, j, 0, t) == want, "coupling of the term");
				psx_assert(g(m, m + 1, i, 0, j, 0, t) == want, "coupling of the term with the blocks named");
			}
		}
}
