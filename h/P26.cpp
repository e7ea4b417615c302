// P26: lattice neighbour relations.
//@ src: PsimagLite.cpp
//@ bounds: chains of 2..64 sites (symbolic length) with distance 1..4 (length above the distance); ladders and ladders with diagonals of 1..4 legs (2..4 for diagonals; directions of diagonals for two legs) and 1..16 columns (symbolic); ladders with baths of even cluster size, 2..3/4 legs, 1..4/8 columns and 0..2/3 baths per site; stars of 2..64 sites; copper-oxide lattice of up to 64 sites; honeycombs of 1..3/4 cells of four sites up and 1..16 columns (symbolic), their fringes for up to 12/16 sites; fringes of open chains and ladders of up to 64 sites, with diagonals of up to 16 columns of two, for every cut; every pair of sites (symbolic) and every periodicity; translations by 0..2L and reflections for chains up to 6/8 sites and ladders up to 4 x 3 / 5 x 4
//@ assume: the lattice reads its parameters from an input source that returns what was put there
#include "geo.h"
#include "Geometry/LongChain.h"
#include "Geometry/Ladder.h"
#include "Geometry/LadderX.h"
#include "Geometry/LadderBath.h"
#include "Geometry/Star.h"
#include "Geometry/Honeycomb.h"
#include "Geometry/KTwoNiFFour.h"
using namespace PsimagLite;
typedef GeoInput<double> In;

static SizeType dist(SizeType a, SizeType b) { return a < b ? b - a : a - b; }
static SizeType mod(SizeType a, SizeType b) { return a % b; }

// neighbours on a line of n, at a distance d
static bool line(SizeType a, SizeType b, SizeType n, bool periodic, SizeType d = 1)
{
	SizeType x = dist(a, b);
	return (x == d) | (periodic & (x == n - d));
}
template <typename G>
static void check(const G& g, SizeType i, SizeType j, bool e)
{
	bool r = g.connected(i, j);
	psx_assert(r == e, "connected exactly as the lattice says");
	psx_assert(g.connected(j, i) == r, "connected is symmetric");
	psx_assert(!g.connected(i, i), "no site is connected to itself");
	psx_observe(r);
}
template <typename G>
static void checkDir(const G& g, SizeType i, SizeType j, SizeType e)
{
	SizeType r = g.calcDir(i, j);
	psx_assert(r == e, "direction");
	psx_assert(r < g.dirs(), "direction is in range");
	psx_assert(g.calcDir(j, i) == r, "direction does not depend on the order");
}
PSX_CASE(chain)
{
	SizeType d = 1 + psx_choose("distance", 4), p = psx_choose("periodic", 2);
	SizeType L = psx_range("sites", d + 1, 64);
	In io;
	io.num["IsPeriodicX"] = p;
	bool given = d > 1 || psx_choose("given", 2);
	if (given)
		io.num["LongChainDistance"] = d;
	LongChain<double, In> g(L, io);
	SizeType i = psx_range("i", 0, 63), j = psx_range("j", 0, 63);
	psx_assume((i < L) & (j < L));
	bool e = (i != j) & line(i, j, L, p, d);
	check(g, i, j, e);
	if (e)
		checkDir(g, i, j, 0);
	psx_assert(g.length(0) == L && g.dirs() == 1, "length");
}
static void ladderInput(In& io, SizeType leg, bool px, bool py)
{
	io.num["LadderLeg"] = leg;
	if (px || psx_choose("say not periodic", 2))
		io.num["IsPeriodicX"] = px;
	if (leg > 2)
		io.num["IsPeriodicY"] = py;
}
PSX_CASE(ladder)
{
	SizeType leg = 1 + psx_choose("legs", 4), px = psx_choose("px", 2), py = leg > 2 ? psx_choose("py", 2) : 0;
	SizeType lx = psx_range("columns", 1, 16), L = lx * leg;
	In io;
	ladderInput(io, leg, px, py);
	Ladder<double, In> g(L, io);
	SizeType i = psx_range("i", 0, 63), j = psx_range("j", 0, 63);
	psx_assume((i < L) & (j < L));
	SizeType xi = i / leg, xj = j / leg, yi = mod(i, leg), yj = mod(j, leg);
	bool ex = (yi == yj) & line(xi, xj, lx, px), ey = (xi == xj) & line(yi, yj, leg, py);
	bool e = (i != j) & (ex | ey);
	check(g, i, j, e);
	if (e)
		checkDir(g, i, j, xi == xj ? 1 : 0);
	psx_assert(g.length(0) == lx && g.length(1) == leg && g.leg() == leg, "lengths");
	psx_assert(g.isPeriodicX() == (px != 0) && g.isPeriodicY() == (py != 0), "boundary conditions");
}
PSX_CASE(ladder_refused)
{
	// sites that are not a whole number of columns; more than two legs without boundary conditions
	SizeType leg = 2 + psx_choose("legs", 3), L = psx_range("sites", 1, 40), say = psx_choose("say", 2);
	In io;
	io.num["LadderLeg"] = leg;
	if (say)
		io.num["IsPeriodicY"] = 0;
	bool ok = false;
	try {
		Ladder<double, In> g(L, io);
		ok = true;
	} catch (std::exception&) {
	}
	psx_assert(ok == (mod(L, leg) == 0 && (leg == 2 || say)), "ill-shaped ladders, and only those, are errors");
}
PSX_CASE(ladderx)
{
	SizeType leg = 2 + psx_choose("legs", 3), px = psx_choose("px", 2), py = leg > 2 ? psx_choose("py", 2) : 0;
	SizeType lx = psx_range("columns", 1, 16), L = lx * leg;
	In io;
	ladderInput(io, leg, px, py);
	LadderX<double, In> g(L, io);
	SizeType i = psx_range("i", 0, 63), j = psx_range("j", 0, 63);
	psx_assume((i < L) & (j < L));
	SizeType xi = i / leg, xj = j / leg, yi = mod(i, leg), yj = mod(j, leg);
	bool ex = (yi == yj) & line(xi, xj, lx, px), ey = (xi == xj) & line(yi, yj, leg, py);
	bool ed = (dist(xi, xj) == 1) & (dist(yi, yj) == 1);
	bool e = (i != j) & (ex | ey | ed);
	if (lx > 2 || leg == 2) // else the diagonals may close around a boundary
		check(g, i, j, e);
	if (e && leg == 2) {
		SizeType left = xi < xj ? yi : yj; // row of the end with smaller x
		checkDir(g, i, j, xi == xj ? 1 : yi == yj ? 0 : left == 1 ? 2 : 3);
	}
}
PSX_CASE(ladderbath)
{
	SizeType leg = 2 + psx_choose("legs", PSX_T(2, 3)), b = psx_choose("baths", PSX_T(3, 4));
	SizeType px = psx_choose("px", 2), py = leg > 2 ? psx_choose("py", 2) : 0;
	SizeType lx = 1 + psx_choose("columns", PSX_T(4, 8)), C = lx * leg, L = C * (1 + b);
	psx_assume((C & 1) == 0);
	In io;
	ladderInput(io, leg, px, py);
	io.num["BathSitesPerSite"] = b;
	LadderBath<double, In> g(L, io);
	SizeType i = psx_range("i", 0, 127), j = psx_range("j", 0, 127);
	psx_assume((i < L) & (j < L));
	SizeType first = (C / 2) * b, last = first + C, half = C / 2;
	// cluster site and bath number of a site outside the cluster: the baths of the left half come
	// first, bath number by bath number; those of the right half after the cluster in the same way
	auto cluster = [&](SizeType s) { return (s >= first) & (s < last); };
	bool ci = cluster(i), cj = cluster(j);
	bool e;
	SizeType dir = 2;
	if (ci && cj) {
		SizeType a = i - first, c = j - first;
		SizeType xi = a / leg, xj = c / leg, yi = mod(a, leg), yj = mod(c, leg);
		e = (i != j) & (((yi == yj) & line(xi, xj, lx, px)) | ((xi == xj) & line(yi, yj, leg, py)));
		dir = xi == xj ? 1 : 0;
	} else if (!ci && !cj)
		e = false;
	else {
		SizeType bath = ci ? j : i, site = ci ? i : j;
		SizeType owner = bath < first ? first + bath % half : first + half + (bath - last) % half;
		e = owner == site;
	}
	check(g, i, j, e);
	if (e)
		checkDir(g, i, j, dir);
}
PSX_CASE(ladderbath_refused)
{
	SizeType b = psx_choose("baths", 4), L = psx_range("sites", 1, 40);
	In io;
	io.num["LadderLeg"] = 2;
	io.num["BathSitesPerSite"] = b;
	bool ok = false;
	try {
		LadderBath<double, In> g(L, io);
		ok = true;
	} catch (std::exception&) {
	}
	psx_assert(ok == (mod(L, 2 * (1 + b)) == 0), "sites that are not a ladder and its baths are an error");
}
PSX_CASE(star)
{
	SizeType L = psx_range("sites", 2, 64);
	In io;
	Star<double, In> g(L, io);
	SizeType i = psx_range("i", 0, 63), j = psx_range("j", 0, 63);
	psx_assume((i < L) & (j < L));
	bool e = (i != j) & ((i == 1) | (j == 1));
	check(g, i, j, e);
	if (e)
		checkDir(g, i, j, 0);
}
PSX_CASE(copper_oxide)
{
	SizeType L = 64;
	In io;
	io.num["SignChange"] = psx_choose("sign change", 2) ? -1 : 1;
	KTwoNiFFour<double, In> g(L, io);
	SizeType i = psx_range("i", 0, 63), j = psx_range("j", 0, 63);
	SizeType ni = i / 4, nj = j / 4, ti = i % 4, tj = j % 4;
	// cell n: oxygen x (0), two oxygens y (1, 2), copper (3)
	bool e = false;
	SizeType dir = 0;
	int sign = 1;
	auto bond = [&](SizeType n1, SizeType t1, SizeType n2, SizeType t2) {
		// copper with the oxygens of its cell and the x oxygen of the next cell
		if (t1 == 3 && t2 != 3 && ((n1 == n2) | ((t2 == 0) & (n2 == n1 + 1)))) {
			e = true;
			dir = t2 == 0 ? 0 : 1;
			if (n2 == n1 + 1 || t2 == 2)
				sign = -sign;
		}
		// x oxygen with the y oxygens of its cell and of the one before
		if (t1 == 0 && (t2 == 1 || t2 == 2) && ((n1 == n2) | (n1 == n2 + 1))) {
			e = true;
			dir = (t2 == 1) == (n1 == n2) ? 2 : 3;
		}
	};
	bond(ni, ti, nj, tj);
	bond(nj, tj, ni, ti);
	check(g, i, j, e);
	if (e) {
		checkDir(g, i, j, dir);
		bool inv = i % 8 == 4 || j % 8 == 4;
		if (inv)
			sign *= (int)io.num["SignChange"];
		psx_assert(g.signChange(i, j) == sign && g.signChange(j, i) == sign, "sign of the bond");
	}
}
// translations and reflections
template <typename G>
static void maps(const G& g, SizeType L, SizeType dir, SizeType length, bool respects)
{
	SizeType a = psx_choose("amount", 2 * length + 1);
	for (SizeType i = 0; i < L; ++i)
		psx_assert(g.translate(i, dir, a) < L, "a translated site is a site");
	SizeType i = psx_range("i", 0, L - 1), j = psx_range("j", 0, L - 1);
	SizeType ti = g.translate(i, dir, a), tj = g.translate(j, dir, a);
	psx_assert((ti == tj) == (i == j), "translations are one to one");
	psx_assert(g.translate(ti, dir, length - a % length) == i, "the rest of the way leads back");
	if (respects)
		psx_assert(g.connected(i, j) == g.connected(ti, tj), "translations respect the bonds of a periodic lattice");
}
template <typename G>
static void reflect(const G& g, SizeType L)
{
	SizeType i = psx_range("i", 0, L - 1), j = psx_range("j", 0, L - 1);
	SizeType ri = g.findReflection(i), rj = g.findReflection(j);
	psx_assert(ri < L && rj < L, "a reflected site is a site");
	psx_assert(g.findReflection(ri) == i, "reflecting twice leads back");
	psx_assert(g.connected(i, j) == g.connected(ri, rj), "reflections respect the bonds");
}
// columns of four-site cells: bonds Y, Z, X, Z up the column; the first site of a cell has its X bond with the
// second one of the cell in the next column, the last site its Y bond with the third one there
static SizeType honeycombBond(SizeType xi, SizeType yi, SizeType xj, SizeType yj, SizeType lx, SizeType ly, bool px, bool py)
{
	SizeType r = 9;
	bool up = (xi == xj) & ((yj == yi + 1) | (py & (yi + 1 == ly) & (yj == 0)));
	if (up & ((yi & 3) == 2))
		r = 0;
	if (up & ((yi & 3) == 0))
		r = 1;
	if (up & ((yi & 1) == 1))
		r = 2;
	bool right = (xj == xi + 1) | (px & (xi + 1 == lx) & (xj == 0) & (lx > 1));
	if (right & ((yi & 3) == 0) & (yj == yi + 1))
		r = 0;
	if (right & ((yi & 3) == 3) & (yj + 1 == yi))
		r = 1;
	return r;
}
PSX_CASE(honeycomb)
{
	SizeType ly = 4 * (1 + psx_choose("cells up", PSX_T(3, 4))), px = psx_choose("px", 3), py = psx_choose("py", 2);
	SizeType lx = psx_range("columns", 1, 16), L = lx * ly;
	In io;
	io.num["HoneycombLy"] = ly;
	io.num["IsPeriodicY"] = py;
	if (px < 2)
		io.num["IsPeriodicX"] = px;
	px = px == 1;
	Honeycomb<double, In> g(L, io);
	SizeType i = psx_range("i", 0, 255), j = psx_range("j", 0, 255);
	psx_assume((i < L) & (j < L));
	SizeType xi = i / ly, xj = j / ly, yi = mod(i, ly), yj = mod(j, ly);
	SizeType d = honeycombBond(xi, yi, xj, yj, lx, ly, px, py);
	if (d == 9)
		d = honeycombBond(xj, yj, xi, yi, lx, ly, px, py);
	check(g, i, j, d != 9);
	if (d != 9)
		checkDir(g, i, j, d);
	psx_assert(g.dirs() == 3, "three directions");
}
PSX_CASE(honeycomb_fringe)
{
	// sites of one half that have a neighbour in the other one
	SizeType ly = 4, px = psx_choose("px", 2), py = psx_choose("py", 2), lx = 1 + psx_choose("columns", PSX_T(3, 4)), L = lx * ly;
	In io;
	io.num["HoneycombLy"] = ly;
	io.num["IsPeriodicY"] = py;
	io.num["IsPeriodicX"] = px;
	Honeycomb<double, In> g(L, io);
	SizeType smax = psx_choose("smax", L - 1), emin = smax + 1 + psx_choose("gap", 2);
	psx_assume(emin < L);
	SizeType i = psx_range("i", 0, L - 1);
	bool e = false;
	for (SizeType j = 0; j < L; ++j) {
		SizeType d = honeycombBond(i / ly, mod(i, ly), j / ly, mod(j, ly), lx, ly, px, py);
		SizeType d2 = honeycombBond(j / ly, mod(j, ly), i / ly, mod(i, ly), lx, ly, px, py);
		bool other = (i <= smax) ? j >= emin : (i >= emin) ? j <= smax : false;
		e |= other & ((d != 9) | (d2 != 9));
	}
	psx_assert(g.fringe(i, smax, emin) == e, "fringe: neighbours in the other half");
}
// fringes of lattices open along the cut that splits them in two
PSX_CASE(chain_fringe)
{
	SizeType d = 1 + psx_choose("distance", 4), L = psx_range("sites", d + 1, 64);
	In io;
	io.num["IsPeriodicX"] = 0;
	io.num["LongChainDistance"] = d;
	LongChain<double, In> g(L, io);
	SizeType smax = psx_range("smax", 0, 62), i = psx_range("i", 0, 63);
	psx_assume((smax + 1 < L) & (i < L));
	bool e = i <= smax ? (i + d > smax) & (i + d < L) : (i >= d) & (i < smax + 1 + d);
	psx_assert(g.fringe(i, smax, smax + 1) == e, "fringe of a chain: neighbours in the other half");
}
PSX_CASE(ladder_fringe)
{
	SizeType leg = 1 + psx_choose("legs", 4), py = leg > 2 ? psx_choose("py", 2) : 0;
	SizeType L = leg * psx_range("columns", 1, 16);
	In io;
	ladderInput(io, leg, false, py);
	Ladder<double, In> g(L, io);
	SizeType smax = psx_range("smax", 0, 62), i = psx_range("i", 0, 63);
	psx_assume((smax + 1 < L) & (i < L));
	bool e = (i + leg > smax) & (i <= smax + leg);
	psx_assert(g.fringe(i, smax, smax + 1) == e, "fringe of a ladder: less than a column from the cut");
}
PSX_CASE(ladderx_fringe)
{
	SizeType L = 2 * psx_range("columns", 1, 16);
	In io;
	ladderInput(io, 2, false, false);
	LadderX<double, In> g(L, io);
	SizeType smax = psx_range("smax", 0, 62), i = psx_range("i", 0, 63);
	psx_assume((smax + 1 < L) & (i < L));
	bool e = false;
	for (SizeType j = 0; j < 32; ++j) {
		bool near = dist(i / 2, j / 2) <= 1;
		e |= (j < L) & (i != j) & near & ((i <= smax) != (j <= smax));
	}
	psx_assert(g.fringe(i, smax, smax + 1) == e, "fringe of a ladder with diagonals: neighbours in the other half");
}
PSX_CASE(chain_maps)
{
	SizeType L = 2 + psx_choose("sites", PSX_T(5, 7)), p = psx_choose("periodic", 2);
	In io;
	io.num["IsPeriodicX"] = p;
	LongChain<double, In> g(L, io);
	SizeType i = psx_range("site", 0, L - 1), a = psx_choose("a", 2 * L);
	psx_assert(g.translate(i, 0, a) == (i + a) % L, "translation");
	psx_assert(g.findReflection(i) == L - 1 - i, "reflection");
	maps(g, L, 0, L, p);
	reflect(g, L);
}
PSX_CASE(ladder_maps)
{
	SizeType leg = 1 + psx_choose("legs", PSX_T(3, 4)), lx = 1 + psx_choose("columns", PSX_T(4, 5)), L = leg * lx;
	SizeType px = psx_choose("px", 2), py = leg > 2 ? psx_choose("py", 2) : 0, dir = psx_choose("dir", 2);
	In io;
	ladderInput(io, leg, px, py);
	Ladder<double, In> g(L, io);
	SizeType s = psx_range("site", 0, L - 1), a = psx_choose("a", 3);
	SizeType x = s / leg, y = s % leg;
	SizeType e = dir == 0 ? ((x + a) % lx) * leg + y : x * leg + (y + a) % leg;
	psx_assert(g.translate(s, dir, a) == e, "translation");
	psx_assert(g.findReflection(s) == (lx - 1 - x) * leg + y, "reflection");
	maps(g, L, dir, dir ? leg : lx, dir ? (py || leg <= 2) : (px || lx <= 2));
	reflect(g, L);
}
