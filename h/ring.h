// Words modulo 2^32 standing for real numbers, so that a formula is decided as an identity of polynomials.
// Division by a known odd number is exact; other divisions, halves, square roots and moduli are formal.
#pragma once
#include "psx.h"
#include <cmath>
#include <cstring>
#include <iostream>
#include <vector>
struct R {
	unsigned v;
	unsigned known; // a number written in the program
	R() : v(0), known(true) { }
	R(int x) : v((unsigned)x), known(true) { }
	R(unsigned x) : v(x), known(true) { }
	R(unsigned long x) : v((unsigned)x), known(true) { }
	R(double x) : known(true)
	{
		int i = (int)x;
		if (x == i)
			v = (unsigned)i;
		else if (x == 0.5)
			v = 0x1234567u;
		else {
			unsigned long b;
			memcpy(&b, &x, 8);
			v = ((unsigned)(b >> 20) ^ (unsigned)b) | 0x80000001u; // below every root
		}
	}
	R(const R& o) : v(o.v), known(o.known) { } // not trivial: keeps the two words apart
	R& operator=(const R& o) { v = o.v; known = o.known; return *this; }
	explicit operator unsigned long() const { return v; }
	static R of(unsigned x, unsigned k = 0) { R r; r.v = x; r.known = k; return r; }
};
static inline R operator+(R a, R b) { return R::of(a.v + b.v, a.known & b.known); }
static inline R operator-(R a, R b) { return R::of(a.v - b.v, a.known & b.known); }
static inline R operator-(R a) { return R::of(0u - a.v, a.known); }
static inline R operator*(R a, R b) { return R::of(a.v * b.v, a.known & b.known); }
static inline R operator*(double a, R b) { return R(a) * b; }
static inline R operator*(R b, double a) { return R(a) * b; }
static inline R operator*(int a, R b) { return R(a) * b; }
static inline R operator*(R b, int a) { return R(a) * b; }
static inline R inverse(R b)
{
	if (b.known && (b.v & 1)) {
		unsigned x = b.v;
		for (int i = 0; i < 6; ++i)
			x *= 2u - b.v * x;
		return R::of(x, true);
	}
	return R::of(b.v * 77u + 5u);
}
static inline R operator/(R a, R b) { return a * inverse(b); }
static inline R operator/(double a, R b) { return R(a) * inverse(b); }
static inline R operator/(R a, int b) { return a * inverse(R(b)); }
static inline R& operator+=(R& a, R b) { return a = a + b; }
static inline R& operator-=(R& a, R b) { return a = a - b; }
static inline R& operator*=(R& a, R b) { return a = a * b; }
static inline R& operator/=(R& a, R b) { return a = a / b; }
// being zero, or less: exact for known numbers, otherwise any property of the number (here one of its bits)
static inline bool operator==(R a, R b)
{
	if (a.known == b.known)
		return a.v == b.v;
	if (a.known && a.v == 0)
		return (b.v & 16) == 0;
	if (b.known && b.v == 0)
		return (a.v & 16) == 0;
	return a.v == b.v;
}
static inline bool operator!=(R a, R b) { return !(a == b); }
static inline bool operator<(R a, R b) { return (int)a.v < (int)b.v; }
static inline bool operator>(R a, R b) { return (int)a.v > (int)b.v; }
static inline bool operator<=(R a, R b) { return (int)a.v <= (int)b.v; }
static inline bool operator>=(R a, R b) { return (int)a.v >= (int)b.v; }
// formal; the same for a and -a. Of numbers written in the program, exact
static inline R fabs(R a) { return a.known ? R::of((int)a.v < 0 ? 0u - a.v : a.v, true) : R::of(a.v * a.v); }
static inline std::ostream& operator<<(std::ostream& os, R) { return os << "r"; }
// square roots: known odd numbers in the order asked for; the arguments are kept
struct Roots {
	std::vector<R> of;
	static R value(size_t k) { return R((int)(3 + 2 * k)); }
};
static Roots g_roots;
static inline R sqrt(R a)
{
	g_roots.of.push_back(a);
	return Roots::value(g_roots.of.size() - 1);
}
// complex numbers over R
struct Z {
	R re, im;
	Z() { }
	Z(int x) : re(x) { }
	Z(double x) : re(x) { }
	Z(R x) : re(x) { }
	Z(R x, R y) : re(x), im(y) { }
};
static inline Z operator+(Z a, Z b) { return Z(a.re + b.re, a.im + b.im); }
static inline Z operator-(Z a, Z b) { return Z(a.re - b.re, a.im - b.im); }
static inline Z operator-(Z a) { return Z(-a.re, -a.im); }
static inline Z operator*(Z a, Z b) { return Z(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re); }
static inline Z operator*(R a, Z b) { return Z(a * b.re, a * b.im); }
static inline Z operator*(Z b, R a) { return Z(a * b.re, a * b.im); }
static inline Z& operator+=(Z& a, Z b) { return a = a + b; }
static inline Z& operator-=(Z& a, Z b) { return a = a - b; }
static inline Z& operator*=(Z& a, Z b) { return a = a * b; }
static inline Z& operator*=(Z& a, R b) { return a = b * a; }
static inline bool operator==(Z a, Z b) { return a.re == b.re && a.im == b.im; }
static inline bool operator!=(Z a, Z b) { return !(a == b); }
static inline std::ostream& operator<<(std::ostream& os, Z) { return os << "z"; }
namespace PsimagLite {
static inline R real(const R& x) { return x; }
static inline R conj(const R& x) { return x; }
static inline R real(const Z& x) { return x.re; }
static inline R imag(const Z& x) { return x.im; }
static inline Z conj(const Z& x) { return Z(x.re, -x.im); }
static inline R norm(const R& x) { return ::fabs(x); }
}
static inline bool sameR(R a, R b) { return a.v == b.v; }
static inline bool sameR(Z a, Z b) { return (a.re.v == b.re.v) & (a.im.v == b.im.v); }
static inline void put(R& x, const char* n) { x = R::of(psx_u32(n)); }
static inline void put(Z& x, const char* n)
{
	put(x.re, n);
	put(x.im, n);
}
