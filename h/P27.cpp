// P27: every lattice bond owns its own connector value.
//@ src: PsimagLite.cpp
//@ bounds: entry numbers of two symbolic bonds of the same direction: chains of up to 24 sites with distance 1..4, ladders of 1..4 legs and up to 6 columns, ladders with diagonals of 2 legs and up to 10 columns, ladders with baths of 2..3 legs, up to 4 columns and 0..2 baths per site, stars of up to 24 sites; couplings: every pair of sites and degrees of freedom of chains of 2..6 sites, ladders of up to 3 legs and 8 sites, ladders with diagonals of up to 8 sites, ladders with baths of up to 12 sites, stars of up to 5 sites, copper-oxide of up to 9 sites, and all-to-all lattices of up to 4 sites, with 1 or 2 degrees of freedom and every connector value (symbolic); couplings are compared exactly; a gap left out of open chains of up to 9/12 sites with distance 1..3 and of ladders of 1..4 legs, with or without diagonals, of up to 5/7 columns, at every cut (between columns for more than two legs) and of every number of whole columns; larger lattices: chains of 22 and 23, ladders of 18 and 24, ladders with diagonals of 12, ladders with baths of 24 and 36 and stars of 17 sites
//@ case large max_instr=60000000
//@ case large_complex max_instr=60000000
//@ assume: the lattice reads its parameters from an input source that returns what was put there; zeros compare equal whatever their sign
#include "geo.h"
#include "Geometry/Geometry.h"
using namespace PsimagLite;
typedef std::complex<double> C;

template <typename G>
static void bonds(const G& g, SizeType L, SizeType max)
{
	SizeType i = psx_range("i", 0, max), j = psx_range("j", 0, max);
	SizeType k = psx_range("k", 0, max), l = psx_range("l", 0, max);
	psx_assume((i < L) & (j < L) & (k < L) & (l < L));
	psx_assume(g.connected(i, j));
	psx_assume(g.connected(k, l));
	SizeType d = g.calcDir(i, j);
	psx_assume(g.calcDir(k, l) == d);
	SizeType h = g.handle(i, j), h2 = g.handle(k, l);
	bool same = ((i == k) & (j == l)) | ((i == l) & (j == k));
	psx_assert((h == h2) == same, "bonds of a direction have different entries; a bond has one");
	psx_assert(h < g.getVectorSize(d), "the entry is inside the list");
	psx_observe(h);
}
template <typename In>
static void ladderInput(In& io, SizeType leg, bool px, bool py)
{
	io.num["LadderLeg"] = leg;
	io.num["IsPeriodicX"] = px;
	if (leg > 2)
		io.num["IsPeriodicY"] = py;
}
typedef GeoInput<double> In;
PSX_CASE(entries_chain)
{
	SizeType d = 1 + psx_choose("distance", 4), p = psx_choose("periodic", 2);
	SizeType L = psx_range("sites", d + 1, 24);
	In io;
	io.num["IsPeriodicX"] = p;
	io.num["LongChainDistance"] = d;
	LongChain<double, In> g(L, io);
	bonds(g, L, 23);
}
PSX_CASE(entries_ladder)
{
	SizeType leg = 1 + psx_choose("legs", 4), px = psx_choose("px", 2), py = leg > 2 ? psx_choose("py", 2) : 0;
	SizeType lx = 1 + psx_choose("columns", PSX_T(4, 6)), L = lx * leg;
	In io;
	ladderInput(io, leg, px, py);
	Ladder<double, In> g(L, io);
	bonds(g, L, 23);
}
PSX_CASE(entries_ladderx)
{
	SizeType px = psx_choose("px", 2);
	SizeType lx = 1 + psx_choose("columns", PSX_T(6, 10)), L = lx * 2;
	In io;
	ladderInput(io, 2, px, 0);
	LadderX<double, In> g(L, io);
	bonds(g, L, 19);
}
PSX_CASE(entries_ladderbath)
{
	SizeType leg = 2 + psx_choose("legs", 2), b = psx_choose("baths", 3);
	SizeType px = psx_choose("px", 2), py = leg > 2 ? psx_choose("py", 2) : 0;
	SizeType lx = 1 + psx_choose("columns", PSX_T(2, 4)), c = lx * leg, L = c * (1 + b);
	psx_assume((c & 1) == 0);
	In io;
	ladderInput(io, leg, px, py);
	io.num["BathSitesPerSite"] = b;
	LadderBath<double, In> g(L, io);
	bonds(g, L, 47);
}
PSX_CASE(entries_star)
{
	SizeType L = psx_range("sites", 2, 24);
	In io;
	Star<double, In> g(L, io);
	bonds(g, L, 23);
}

// ---- couplings
struct Lattice {
	std::string kind;
	SizeType L = 0, leg = 1, lx = 1, b = 0, d = 1;
	bool px = false, py = false;
	std::vector<SizeType> size; // demanded length of the list of each direction
};
// direction and entry of the bond of two sites, from the documented numbering; false if there is no bond
static bool bond(const Lattice& g, SizeType i, SizeType j, SizeType& dir, SizeType& e)
{
	if (i == j)
		return false;
	SizeType a = std::min(i, j), z = std::max(i, j);
	dir = 0;
	if (g.kind == "chain") {
		e = (z - a == g.d) ? a : z;
		return z - a == g.d || (g.px && z - a == g.L - g.d);
	}
	if (g.kind == "star") {
		e = z - 1;
		return a == 1 || z == 1;
	}
	SizeType first = 0, cluster = g.L;
	if (g.kind == "ladderbath") {
		cluster = g.leg * g.lx;
		SizeType half = cluster / 2;
		first = half * g.b;
		bool ci = i >= first && i < first + cluster, cj = j >= first && j < first + cluster;
		if (!ci && !cj)
			return false;
		if (ci != cj) {
			SizeType s = ci ? i : j, bath = ci ? j : i;
			bool left = bath < first;
			SizeType n = left ? bath : bath - first - cluster;
			SizeType owner = n % half + (left ? 0 : half);
			dir = 2;
			e = owner * g.b + n / half;
			return s - first == owner;
		}
		a -= first;
		z -= first;
	}
	SizeType xa = a / g.leg, xz = z / g.leg, ya = a % g.leg, yz = z % g.leg;
	if (ya == yz) {
		bool wrap = g.px && xa == 0 && xz == g.lx - 1;
		e = wrap ? z : a;
		return wrap || xz - xa == 1;
	}
	if (xa == xz) {
		dir = 1;
		bool wrap = g.py && ya == 0 && yz == g.leg - 1;
		e = g.py ? (wrap ? z : a) : a - xa;
		return wrap || yz - ya == 1;
	}
	if (g.kind == "ladderx" && xz - xa == 1) {
		dir = ya == 1 ? 2 : 3;
		e = xa;
		return true;
	}
	return false;
}
static bool g_large = false;
static Lattice pick(bool constant)
{
	static const char* kinds[] = { "chain", "ladder", "ladderx", "ladderbath", "star" };
	Lattice g;
	g.kind = kinds[psx_choose("kind", 5)];
	if (g.kind == "chain") {
		g.d = 1 + psx_choose("distance", 2);
		g.L = g.d + 1 + (g_large ? 20 : psx_choose("more sites", PSX_T(3, 4)));
		g.px = psx_choose("px", 2);
		g.size = { g.px ? g.L : g.L - g.d };
	} else if (g.kind == "star") {
		g.L = 2 + (g_large ? 15 : psx_choose("more sites", 4));
		g.size = { g.L - 1 };
	} else {
		if (g_large) {
			g.leg = g.kind == "ladder" ? 3 + psx_choose("legs", 2) : g.kind == "ladderbath" ? 2 + psx_choose("legs", 2) : 2;
			g.lx = g.kind == "ladderbath" ? 4 : 6;
		} else {
			g.leg = g.kind == "ladder" ? 1 + psx_choose("legs", 3) : 2;
			g.lx = 1 + psx_choose("columns", g.leg == 3 ? 2 : PSX_T(3, 4));
		}
		g.px = psx_choose("px", 2);
		if (g.leg > 2)
			g.py = psx_choose("py", 2);
		SizeType n = g.leg * g.lx;
		g.L = n;
		g.size = { g.px ? n : n - g.leg, g.py ? n : n - g.lx };
		if (g.kind == "ladderx")
			g.size.insert(g.size.end(), { n - 2, n - 2 });
		if (g.kind == "ladderbath") {
			g.b = g_large ? 2 : 1 + psx_choose("baths", g.lx > 2 ? 1 : 2);
			g.L = n * (1 + g.b);
			g.size.push_back(g.b * n);
		}
	}
	if (constant)
		for (SizeType k = 0; k < g.size.size(); ++k)
			g.size[k] = 1;
	return g;
}
template <typename I>
static void describe(I& io, const Lattice& g, bool constant, SizeType dofs)
{
	io.text["GeometryKind"] = g.kind;
	io.text["GeometryOptions"] = constant ? "ConstantValues" : "none";
	io.num["DegreesOfFreedom"] = dofs;
	if (g.kind == "chain") {
		io.num["IsPeriodicX"] = g.px;
		if (g.d > 1)
			io.num["LongChainDistance"] = g.d;
	} else if (g.kind != "star")
		ladderInput(io, g.leg, g.px, g.py);
	if (g.kind == "ladderbath")
		io.num["BathSitesPerSite"] = g.b;
}
static void put(double& x, const char*n) { x = psx_dbl(n, -100, 100); }
static void put(C& x, const char* n)
{
	double a = psx_dbl(n, -100, 100);
	double b = psx_dbl("imag", -100, 100);
	x = C(a, b);
}
template <typename T>
static void numbers(bool constant)
{
	typedef GeoInput<T> I;
	Lattice g = pick(constant);
	I io;
	describe(io, g, constant, 1);
	std::vector<std::vector<T>> v;
	for (SizeType k = 0; k < g.size.size(); ++k) {
		std::vector<T> w(g.size[k]);
		for (SizeType n = 0; n < w.size(); ++n)
			put(w[n], "connector");
		v.push_back(w);
		io.vec["dir" + ttos(k) + ":Connectors"] = w;
	}
	typedef GeometryTerm<T, I> Term;
	typename Term::Auxiliary aux(false, 0, 1, g.L);
	Term term(io, aux);
	psx_assert(io.prefix() == "", "the prefix is restored");
	psx_assert(term.directions() == g.size.size(), "number of directions");
	for (SizeType i = 0; i < g.L; ++i)
		for (SizeType j = 0; j < g.L; ++j) {
			SizeType dir = 0, e = 0;
			bool c = bond(g, i, j, dir, e);
			psx_assert(term.connected(i, j) == c, "connected");
			T want = c ? v[dir][constant ? 0 : e] : T(0);
			psx_assert(term(i, 0, j, 0) == want, "the coupling is the connector of the bond, or zero");
		}
}
PSX_CASE(couplings) { numbers<double>(false); }
PSX_CASE(couplings_complex) { numbers<C>(false); }
PSX_CASE(couplings_constant) { numbers<double>(true); }
template <typename T>
static T cj(const T& x) { return PsimagLite::conj(x); }
// two degrees of freedom: a matrix per bond
template <typename T>
static void matrices(bool constant)
{
	typedef GeoInput<T> I;
	Lattice g = pick(constant);
	if (PSX_T(true, false) && !constant)
		psx_assume(g.L <= 6);
	I io;
	describe(io, g, constant, 2);
	std::vector<std::vector<Matrix<T>>> v;
	for (SizeType k = 0; k < g.size.size(); ++k) {
		std::vector<Matrix<T>> w;
		SizeType n = std::max<SizeType>(g.size[k], 1);
		for (SizeType m = 0; m < n; ++m) {
			Matrix<T> x(2, 2);
			for (SizeType a = 0; a < 2; ++a)
				for (SizeType b = 0; b < 2; ++b)
					put(x(a, b), "connector");
			io.mat["dir" + ttos(k) + ":Connectors" + (n > 1 ? ttos(m) : "")] = x;
			w.push_back(x);
		}
		v.push_back(w);
	}
	typedef GeometryTerm<T, I> Term;
	typename Term::Auxiliary aux(false, 0, 1, g.L);
	Term term(io, aux);
	for (SizeType i = 0; i < g.L; ++i)
		for (SizeType j = 0; j < g.L; ++j) {
			SizeType dir = 0, e = 0;
			bool c = bond(g, i, j, dir, e);
			for (SizeType a = 0; a < 2; ++a)
				for (SizeType b = 0; b < 2; ++b) {
					T want = 0;
					if (c) {
						const Matrix<T>& m = v[dir][constant ? 0 : e];
						want = i > j ? m(a, b) : cj<T>(m(b, a));
					}
					psx_assert(term(i, a, j, b) == want, "the coupling is the entry of the bond's matrix");
				}
		}
}
PSX_CASE(matrices) { matrices<double>(false); }
PSX_CASE(matrices_complex) { matrices<C>(false); }
PSX_CASE(matrices_constant) { matrices<C>(true); }
// a list of another length is refused
PSX_CASE(wrong_length)
{
	Lattice g = pick(false);
	In io;
	describe(io, g, false, 1);
	SizeType bad = psx_choose("direction", g.size.size());
	bool more = psx_choose("more", 2);
	psx_assume(more || g.size[bad] > 0);
	for (SizeType k = 0; k < g.size.size(); ++k)
		io.vec["dir" + ttos(k) + ":Connectors"].resize(k != bad ? g.size[k] : more ? g.size[k] + 1 : g.size[k] - 1);
	bool ok = false;
	try {
		GeometryTerm<double, In>::Auxiliary aux(false, 0, 1, g.L);
		GeometryTerm<double, In> term(io, aux);
		ok = true;
	} catch (std::exception&) {
	}
	psx_assert(!ok, "a list of connectors of another length is an error");
}
// several terms have their own lattices and connectors
PSX_CASE(terms)
{
	SizeType L = 4;
	In io;
	double v[2], w[3];
	for (int k = 0; k < 2; ++k)
		v[k] = psx_dbl("ladder", -100, 100);
	for (int k = 0; k < 3; ++k)
		w[k] = psx_dbl("chain", -100, 100);
	SizeType first = psx_choose("first", 2);
	std::string l = first ? "gt1:" : "gt0:", c = first ? "gt0:" : "gt1:";
	io.num[l + "DegreesOfFreedom"] = io.num[c + "DegreesOfFreedom"] = 1;
	io.text[l + "GeometryKind"] = "ladder";
	io.text[c + "GeometryKind"] = "chain";
	io.text[l + "GeometryOptions"] = "ConstantValues";
	io.text[c + "GeometryOptions"] = "none";
	io.num[l + "LadderLeg"] = 2;
	io.num[l + "IsPeriodicX"] = 0;
	for (int k = 0; k < 2; ++k)
		io.vec[l + "dir" + ttos(k) + ":Connectors"].push_back(v[k]);
	for (int k = 0; k < 3; ++k)
		io.vec[c + "dir0:Connectors"].push_back(w[k]);
	for (SizeType t = 0; t < 2; ++t) {
		GeometryTerm<double, In>::Auxiliary aux(false, t, 2, L);
		GeometryTerm<double, In> term(io, aux);
		psx_assert(io.prefix() == "", "the prefix is restored");
		bool isLadder = (t == 1) == (first == 1);
		for (SizeType i = 0; i < L; ++i)
			for (SizeType j = 0; j < L; ++j) {
				SizeType a = std::min(i, j), z = std::max(i, j);
				double want = 0;
				if (isLadder) {
					if (z - a == 2)
						want = v[0];
					if (z - a == 1 && a != 1)
						want = v[1];
				} else if (z - a == 1)
					want = w[a];
				psx_assert(term(i, 0, j, 0) == want, "couplings of each term");
			}
	}
}
// copper-oxide: the connector of the direction, up to the sign convention; copper has one orbital
PSX_CASE(copper_oxide)
{
	SizeType L = 4 + psx_choose("more sites", PSX_T(4, 6)), two = psx_choose("two orbitals", 2);
	In io;
	io.text["GeometryKind"] = "ktwoniffour";
	io.text["GeometryOptions"] = "ConstantValues";
	io.num["DegreesOfFreedom"] = two + 1;
	io.num["SignChange"] = psx_choose("sign", 2) ? -1 : 1;
	double v[4][2][2];
	for (SizeType k = 0; k < 4; ++k) {
		Matrix<double> m(2, 2);
		for (SizeType a = 0; a < 2; ++a)
			for (SizeType b = 0; b < 2; ++b)
				m(a, b) = v[k][a][b] = psx_dbl("connector", -100, 100);
		if (two)
			io.mat["dir" + ttos(k) + ":Connectors"] = m;
		else
			io.vec["dir" + ttos(k) + ":Connectors"].assign(1, m(0, 0));
	}
	GeometryTerm<double, In>::Auxiliary aux(false, 0, 1, L);
	GeometryTerm<double, In> term(io, aux);
	for (SizeType i = 0; i < L; ++i)
		for (SizeType j = 0; j < L; ++j) {
			bool ci = i % 4 == 3, cj = j % 4 == 3;
			psx_assert(term.orbitals(i) == (ci ? 1 : two + 1), "orbitals of a site");
			for (SizeType a = 0; a < term.orbitals(i); ++a)
				for (SizeType b = 0; b < term.orbitals(j); ++b) {
					double x = term(i, a, j, b);
					if (!term.connected(i, j)) {
						psx_assert(x == 0, "no coupling without a bond");
						continue;
					}
					SizeType k = term.calcDir(i, j);
					double w = i > j ? v[k][a][b] : v[k][b][a];
					psx_assert((x == w) | (x == -w), "the connector of the direction up to its sign");
					if (!ci && !cj && i != 0 && j != 0 && i % 8 != 4 && j % 8 != 4)
						psx_assert(x == w, "oxygens that are not inverted keep the sign");
				}
		}
}
// all-to-all: the coupling is the matrix entry given
template <typename T>
static void general(bool compact)
{
	typedef GeoInput<T> I;
	SizeType dofs = 1 + psx_choose("dofs", 2), L = 2 + psx_choose("more sites", dofs > 1 ? 1 : PSX_T(2, 3)), n = L * dofs;
	I io;
	io.text["GeometryKind"] = psx_choose("name", 2) ? "LongRange" : "General";
	io.text["GeometryOptions"] = compact ? "compact" : psx_choose("constant", 2) ? "ConstantValues" : "none";
	io.num["DegreesOfFreedom"] = dofs;
	io.num["GeometryMaxConnections"] = psx_choose("max", 2) * 3;
	Matrix<T> full(n, n), given;
	if (compact) {
		// some lines, at indices chosen
		SizeType lines = 1 + psx_choose("lines", 2), cols = dofs > 1 ? 5 : 3;
		given.resize(lines, cols);
		for (SizeType k = 0; k < lines; ++k) {
			SizeType s0 = psx_choose("site0", L), s1 = psx_choose("site1", L);
			SizeType o0 = dofs > 1 ? psx_choose("orb0", 2) : 0;
			SizeType o1 = dofs > 1 ? psx_choose("orb1", 2) : 0;
			SizeType c = 0;
			given(k, c++) = T(double(s0));
			if (dofs > 1)
				given(k, c++) = T(double(o0));
			given(k, c++) = T(double(s1));
			if (dofs > 1)
				given(k, c++) = T(double(o1));
			T x;
			put(x, "value");
			given(k, c) = x;
			full(s0 * dofs + o0, s1 * dofs + o1) = x;
		}
	} else {
		for (SizeType a = 0; a < n; ++a)
			for (SizeType b = 0; b < n; ++b)
				if (b > a && (n < 4 || b < 3))
					put(full(a, b), "value");
		given = full;
	}
	io.mat["Connectors"] = given;
	typedef GeometryTerm<T, I> Term;
	typename Term::Auxiliary aux(false, 0, 1, L);
	Term term(io, aux);
	for (SizeType i = 0; i < L; ++i)
		for (SizeType j = 0; j < L; ++j)
			for (SizeType a = 0; a < dofs; ++a)
				for (SizeType b = 0; b < dofs; ++b)
					psx_assert(term(i, a, j, b) == full(i * dofs + a, j * dofs + b), "the coupling is the entry of the matrix");
}
PSX_CASE(all_to_all) { general<double>(false); }
PSX_CASE(all_to_all_complex) { general<C>(false); }
PSX_CASE(all_to_all_compact) { general<double>(true); }
PSX_CASE(all_to_all_refused)
{
	// a compact list whose index is not a whole number; a matrix of another size; an unknown option
	SizeType what = psx_choose("what", 4);
	In io;
	io.text["GeometryKind"] = "LongRange";
	io.text["GeometryOptions"] = what == 0 ? "compact" : what == 1 ? "dense" : "none";
	io.num["DegreesOfFreedom"] = 1;
	io.num["GeometryMaxConnections"] = 0;
	Matrix<double> m(what == 0 ? 1 : what == 2 ? 4 : 2, what == 0 ? 3 : what == 2 ? 4 : 2);
	double x = 0;
	if (what == 0) {
		x = psx_choose("index", 4);
		m(0, 0) = x / 2;
		m(0, 1) = 1;
		m(0, 2) = psx_dbl("value", -100, 100);
	}
	io.mat["Connectors"] = m;
	bool ok = false;
	try {
		GeometryTerm<double, In>::Auxiliary aux(false, 0, 1, 2);
		GeometryTerm<double, In> term(io, aux);
		ok = true;
	} catch (std::exception&) {
	}
	psx_assert(ok == (what == 3 || (what == 0 && (x == 0 || x == 2))), "ill-formed connectors, and only those, are errors");
}

// larger lattices
PSX_CASE(large)
{
	g_large = true;
	numbers<double>(psx_choose("constant", 2));
}
PSX_CASE(large_complex)
{
	g_large = true;
	numbers<C>(false);
}
// with the middle left out: sites of the two halves couple as if the gap were closed
struct Globals {
	enum class ConnectionEnum { SYSTEM_SYSTEM,
		                    SYSTEM_ENVIRON,
		                    ENVIRON_SYSTEM,
		                    ENVIRON_ENVIRON };
};
PSX_CASE(gap)
{
	static const char* kinds[] = { "chain", "ladder", "ladderx" };
	Lattice g;
	g.kind = kinds[psx_choose("kind", 3)];
	if (g.kind == "chain") {
		g.d = 1 + psx_choose("distance", 3);
		g.L = g.d + 1 + psx_choose("more sites", PSX_T(5, 8));
		g.size = { g.L - g.d };
	} else {
		g.leg = g.kind == "ladder" ? 1 + psx_choose("legs", 4) : 2;
		g.lx = 3 + psx_choose("more columns", g.leg > 2 ? 1 : PSX_T(2, 4));
		if (g.leg > 2)
			g.py = psx_choose("py", 2);
		g.L = g.leg * g.lx;
		g.size = { g.L - g.leg, g.py ? g.L : g.L - g.lx };
		if (g.kind == "ladderx")
			g.size.insert(g.size.end(), { g.L - 2, g.L - 2 });
	}
	In io;
	describe(io, g, false, 1);
	io.num["TotalNumberOfSites"] = g.L;
	io.num["NumberOfTerms"] = 1;
	std::vector<std::vector<double>> v;
	for (SizeType k = 0; k < g.size.size(); ++k) {
		std::vector<double> w(g.size[k]);
		for (SizeType n = 0; n < w.size(); ++n)
			put(w[n], "connector");
		v.push_back(w);
		io.vec["dir" + ttos(k) + ":Connectors"] = w;
	}
	typedef Geometry<double, In, Globals> Geo;
	Geo geo(io);
	for (SizeType smax = 0; smax + 1 < g.L; ++smax) {
		// more than two legs are cut between columns
		if (g.leg > 2 && smax % g.leg != g.leg - 1)
			continue;
		for (SizeType gap = 0; smax + 1 + gap < g.L; gap += g.leg) {
			SizeType emin = smax + 1 + gap;
			for (SizeType i = 0; i <= smax; ++i)
				for (SizeType j = emin; j < g.L; ++j) {
					SizeType dir = 0, e = 0;
					bool c = bond(g, i, j - gap, dir, e);
					double want = c ? v[dir][e] : 0.0;
					psx_assert(geo(smax, emin, i, 0, j, 0, 0) == want, "couples as if the gap were closed");
					psx_assert(geo(smax, emin, j, 0, i, 0, 0) == want, "whichever is named first");
					if (c)
						psx_assert(geo.connected(smax, emin, i, j) && geo.connected(smax, emin, j, i), "connected across the gap");
				}
		}
	}
}
