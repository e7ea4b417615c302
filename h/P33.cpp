// P33: interpolation and root bracketing stay inside their data.
//@ src: PsimagLite.cpp
//@ bounds: splines: tables of 3..5/6 points at listed increasing positions with symbolic values, evaluated at every whole position from 5 below to 5 above the table (symbolic); the numbers are words modulo 2^32 with formal division, absolute value and halving, so that the interpolation is decided as an identity of polynomials (rounding is outside); bisection: every function of values -3..3 at the points evaluated, brackets listed in the harness, 0..3/5 steps, tolerances 1..2; tables of 12 and 25 points with one symbolic value
//@ case large max_instr=60000000
//@ assume: positions of the table increase
#include "psx.h"
#include <map>
#include <vector>
#include <cmath>
#include <iostream>
// words modulo 2^32 standing for real numbers
struct R {
	unsigned v;
	unsigned known; // a number written in the harness
	R() : v(0), known(true) { }
	R(int x) : v((unsigned)x), known(true) { }
	R(double x) : v(x == 0.5 ? 0x1234567u : (unsigned)(int)x), known(x != 0.5) { } // a half is formal
	R(const R& o) : v(o.v), known(o.known) { } // not trivial: keeps the two words apart
	R& operator=(const R& o) { v = o.v; known = o.known; return *this; }
	static R of(unsigned x, unsigned k = 0) { R r; r.v = x; r.known = k; return r; }
};
static inline R operator+(R a, R b) { return R::of(a.v + b.v, a.known & b.known); }
static inline R operator-(R a, R b) { return R::of(a.v - b.v, a.known & b.known); }
static inline R operator-(R a) { return R::of(0u - a.v, a.known); }
static inline R operator*(R a, R b) { return R::of(a.v * b.v, a.known & b.known); }
static inline R operator*(double a, R b) { return R(a) * b; }
static inline R operator*(R b, double a) { return R(a) * b; }
static inline R operator*(int a, R b) { return R(a) * b; }
// inverse: of a known odd number, or a formal one
static inline R inverse(R b)
{
	if (b.known && (b.v & 1)) {
		unsigned x = b.v;
		for (int i = 0; i < 6; ++i)
			x *= 2u - b.v * x;
		return R::of(x, true);
	}
	return R::of(b.v * 77u + 5u);
}
static inline R operator/(R a, R b) { return a * inverse(b); }
static inline R& operator+=(R& a, R b) { return a = a + b; }
static inline R& operator-=(R& a, R b) { return a = a - b; }
static inline R& operator*=(R& a, R b) { return a = a * b; }
static inline R& operator/=(R& a, R b) { return a = a / b; }
// being zero: exact for known numbers, otherwise any property of the number (here one of its bits)
static inline bool operator==(R a, R b)
{
	if (a.known == b.known)
		return a.v == b.v;
	if (a.known && a.v == 0)
		return (b.v & 16) == 0;
	if (b.known && b.v == 0)
		return (a.v & 16) == 0;
	return a.v == b.v;
}
static inline bool operator!=(R a, R b) { return !(a == b); }
static inline bool operator<(R a, R b) { return (int)a.v < (int)b.v; }
static inline bool operator>(R a, R b) { return (int)a.v > (int)b.v; }
static inline bool operator<=(R a, R b) { return (int)a.v <= (int)b.v; }
static inline bool operator>=(R a, R b) { return (int)a.v >= (int)b.v; }
static inline R fabs(R a) { return R::of(a.v * a.v); } // formal; the same for a and -a
namespace std {
static inline R fabs(R a) { return ::fabs(a); }
static inline R abs(R a) { return ::fabs(a); }
}
#include "PsimagLite.h"
using namespace PsimagLite;
#include "AkimaSpline.h"
#include "RootFindingBisection.h"
typedef std::vector<R> V;

static std::vector<int> positions(size_t n)
{
	// odd spacings have inverses
	static const int gaps[3][5] = { { 3, 3, 3, 3, 3 }, { 3, 1, 5, 1, 3 }, { 1, 3, 1, 5, 1 } };
	size_t which = psx_choose("spacing", PSX_T(2, 3));
	std::vector<int> x(n);
	x[0] = psx_choose("first", 2) ? -2 : 0;
	for (size_t i = 1; i < n; ++i)
		x[i] = x[i - 1] + gaps[which][i - 1];
	return x;
}
// Akima's definition
static R derivative(const std::vector<int>& x, const V& s, int i)
{
	int n = (int)x.size();
	std::vector<R> m(n + 3); // m[k + 2]: slope of interval k = -2 .. n
	for (int k = 0; k + 1 < n; ++k)
		m[k + 2] = (s[k + 1] - s[k]) / R(x[k + 1] - x[k]);
	m[1] = 2 * m[2] - m[3];
	m[0] = 2 * m[1] - m[2];
	m[n + 1] = 2 * m[n] - m[n - 1];
	m[n + 2] = 2 * m[n + 1] - m[n];
	R a = fabs(m[i + 3] - m[i + 2]), b = fabs(m[i + 1] - m[i]);
	R den = b + a;
	if (den == R(0))
		return (m[i + 1] + m[i + 2]) * 0.5;
	return (a * m[i + 1] + b * m[i + 2]) / den;
}
PSX_CASE(spline)
{
	size_t n = 3 + psx_choose("points", PSX_T(3, 4));
	std::vector<int> x = positions(n);
	V xs(n), s(n);
	for (size_t i = 0; i < n; ++i) {
		xs[i] = R(x[i]);
		s[i] = R::of(psx_u32("value"));
	}
	AkimaSpline<V> f(xs, s);
	psx_assert(f.getInterval().first == xs[0] && f.getInterval().second == xs[n - 1], "interval of the table");
	int q = (int)psx_choose("query", x[n - 1] - x[0] + 11) + x[0] - 5;
	R y;
	bool ok = false;
	try {
		y = f(R(q));
		ok = true;
	} catch (std::exception&) {
	}
	psx_assert(ok == (q >= x[0] && q <= x[n - 1]), "queries outside the table, and only those, are errors");
	if (!ok)
		return;
	for (size_t i = 0; i < n; ++i)
		if (q == x[i]) {
			psx_assert(y.v == s[i].v, "the tabulated value at a data point");
			return;
		}
	for (size_t i = 0; i + 1 < n; ++i) {
		if (q < x[i] || q > x[i + 1])
			continue;
		// cubic with the values and Akima's derivatives at both ends
		R t = derivative(x, s, i), t2 = derivative(x, s, i + 1);
		R h = R(x[i + 1] - x[i]), u = R(q - x[i]), p = (s[i + 1] - s[i]) / h;
		R want = s[i] + t * u + (3 * p - 2 * t - t2) / h * u * u + (t + t2 - 2 * p) / (h * h) * u * u * u;
		psx_assert(y.v == want.v, "the cubic of the interval with the query");
	}
}
PSX_CASE(spline_between)
{
	// the query is anything: the interval searched is the one that contains it
	size_t n = 3 + psx_choose("points", PSX_T(2, 4));
	std::vector<int> x = positions(n);
	V xs(n), s(n);
	for (size_t i = 0; i < n; ++i) {
		xs[i] = R(x[i]);
		// a piece that is not straight: tells the intervals apart
		s[i] = R((int)(i * i * i + 2));
	}
	AkimaSpline<V> f(xs, s);
	unsigned w = psx_u32("query");
	int q = (int)w;
	bool ok = false;
	R y;
	try {
		y = f(R::of(w));
		ok = true;
	} catch (std::exception&) {
	}
	psx_assert(ok == ((q >= x[0]) & (q <= x[n - 1])), "queries outside the table, and only those, are errors");
}
PSX_CASE(spline_refused)
{
	size_t n = psx_choose("positions", 6), m = psx_choose("values", 6);
	V x(n), s(m);
	for (size_t i = 0; i < n; ++i)
		x[i] = R((int)i);
	bool ok = false;
	try {
		AkimaSpline<V> f(x, s);
		ok = true;
	} catch (std::exception&) {
	}
	psx_assert(ok == (n == m && n >= 3), "tables of different or too small sizes are errors");
}
// in doubles: the data points are met
PSX_CASE(spline_doubles)
{
	typedef std::vector<double> D;
	size_t n = 3 + psx_choose("points", 2);
	D x, s;
	for (size_t i = 0; i < n; ++i) {
		x.push_back(i * 0.5 - 1);
		s.push_back((double)psx_choose("value", 3) - 1);
	}
	AkimaSpline<D> f(x, s);
	for (size_t i = 0; i < n; ++i) {
		double d = f(x[i]) - s[i];
		psx_assert(d < 1e-9 && d > -1e-9, "the tabulated value at a data point");
	}
	// with equal slopes on both sides the table is a straight line there
	if (n == 3 && s[2] - s[1] == s[1] - s[0]) {
		double d = f(-0.75) - (s[0] + s[1]) / 2;
		psx_assert(d < 1e-9 && d > -1e-9, "a straight line");
	}
}
// ---- bisection
struct Fn {
	typedef double RealType;
	double a, b;
	mutable std::vector<std::pair<double, double>> seen;
	double operator()(double x) const
	{
		psx_assert(x >= a && x <= b, "evaluates inside the bracket only");
		for (size_t i = 0; i < seen.size(); ++i)
			if (seen[i].first == x)
				return seen[i].second;
		double v = psx_dbl("f", -3, 3);
		seen.push_back({ x, v });
		return v;
	}
};
static bool neg(double v) { return v < 0; }
PSX_CASE(bisection)
{
	static const double ends[3][2] = { { -1, 1 }, { 0, 8 }, { -7, -3 } };
	size_t w = psx_choose("bracket", PSX_T(2, 3));
	Fn f;
	f.a = ends[w][0];
	f.b = ends[w][1];
	size_t steps = psx_choose("steps", PSX_T(4, 6));
	double tol = 1 + psx_choose("tolerance", 2);
	bool made = false, found = false;
	double c = 0;
	try {
		RootFindingBisection<Fn> root(f, f.a, f.b, steps, tol);
		made = true;
		double fa = f(f.a), fb = f(f.b);
		psx_assert(((fa < 0) & (fb > 0)) | ((fa > 0) & (fb < 0)), "a bracket without a change of sign is an error");
		c = root();
		found = true;
	} catch (std::exception&) {
	}
	if (!made) {
		double fa = f(f.a), fb = f(f.b);
		psx_assert(fa * fb >= 0, "a bracket with a change of sign is accepted");
		return;
	}
	// the points evaluated halve a bracket whose ends have different signs
	double a = f.a, b = f.b;
	size_t n = 0;
	for (size_t k = 2; k < f.seen.size(); ++k) {
		double x = f.seen[k].first, v = f.seen[k].second;
		psx_assert(x == (a + b) / 2, "the next point is in the middle of the bracket");
		++n;
		bool small = (v < tol) & (v > -tol);
		if (small) {
			psx_assert(k + 1 == f.seen.size() && found && c == x, "the first point with a small value is returned");
			return;
		}
		if (neg(v) == neg(f(a)))
			a = x;
		else
			b = x;
		psx_assert(neg(f(a)) != neg(f(b)), "the bracket keeps a change of sign");
	}
	psx_assert(!found && n == steps, "no point with a small value in the steps allowed is an error");
}

// longer tables
PSX_CASE(large)
{
	size_t n = psx_choose("points", 2) ? 12 : 25, at = psx_choose("where", 4), q = psx_choose("query", 3);
	std::vector<int> x(n);
	V xs(n), s(n);
	for (size_t i = 0; i < n; ++i) {
		x[i] = i ? x[i - 1] + (i % 3 == 1 ? 3 : 1) : -7;
		xs[i] = R(x[i]);
		s[i] = R((int)(i * i * i % 17) + 1);
	}
	size_t k = at == 0 ? 0 : at == 1 ? n / 2 / 3 * 3 : at == 2 ? n - 2 : 3;
	s[k] = R::of(psx_u32("value"));
	AkimaSpline<V> f(xs, s);
	// in an interval of three, or at a point of the table
	while (k > 0 && x[k] - x[k - 1] != 3)
		--k;
	if (k == 0)
		k = 1;
	int p = q == 2 ? x[n - 1] : x[k - 1] + 1 + (int)q;
	R y = f(R(p));
	for (size_t i = 0; i < n; ++i)
		if (p == x[i]) {
			psx_assert(y.v == s[i].v, "the tabulated value at a data point");
			return;
		}
	R t = derivative(x, s, k - 1), t2 = derivative(x, s, k);
	R h = R(x[k] - x[k - 1]), u = R(p - x[k - 1]), d = (s[k] - s[k - 1]) / h;
	R want = s[k - 1] + t * u + (3 * d - 2 * t - t2) / h * u * u + (t + t2 - 2 * d) / (h * h) * u * u * u;
	psx_assert(y.v == want.v, "the cubic of the interval with the query");
}
