// P32: Chebyshev polynomials.
//@ src: PsimagLite.cpp
//@ bounds: orders 0..40/100 for every argument of the ring of 64-bit words (the integers modulo 2^64: an identity of integer polynomials that fails, fails there unless every coefficient of the difference vanishes modulo 2^64 as a function), orders 0..7 for integers -64..64 held as doubles, and orders 0..12 for rational points k/8, k = -8..8, in doubles where every operation is exact; one evaluator asked twice, for every two orders to 10/20 and every two arguments of the ring
#include "psx.h"
#include "PsimagLite.h"
#include "ChebyshevFunction.h"
#include "ChebyshevFunctionExplicit.h"
using namespace PsimagLite;
typedef unsigned long Sz;

template <typename R>
static void recurrence(int from, int to, const R& x)
{
	ChebyshevFunction<R> f;
	ChebyshevFunctionExplicit<R> g;
	R a = 1, b = x; // orders m and m + 1
	for (int m = 0; m <= to; ++m) {
		if (m >= from) {
			psx_assert(f(m, x) == a, "the recursive evaluator gives the polynomial of its order");
			psx_assert(g(m, x) == a, "the explicit evaluator gives the polynomial of its order");
		}
		R c = R(2) * x * b - a;
		a = b;
		b = c;
	}
}
PSX_CASE(low_orders)
{
	unsigned long x = psx_u64("x");
	recurrence<unsigned long>(0, 16, x);
}
PSX_CASE(high_orders)
{
	unsigned long x = psx_u64("x");
	recurrence<unsigned long>(17, PSX_T(40, 100), x);
}
PSX_CASE(doubles)
{
	double x = psx_dbl("x", -64, 64);
	recurrence<double>(0, 7, x);
}
PSX_CASE(interval)
{
	double x = (int(psx_choose("x", 17)) - 8) / 8.0;
	recurrence<double>(0, 12, x);
	ChebyshevFunction<double> f;
	for (int m = 0; m < 60; ++m) {
		double v = f(m, x);
		psx_assert(v <= 1.001 && v >= -1.001, "polynomials stay between minus one and one on the interval");
	}
}
// one evaluator, asked twice
template <typename F>
static void twice(Sz to)
{
	unsigned long x = psx_u64("x");
	unsigned long y = psx_u64("y");
	int m = psx_choose("first order", to), n = psx_choose("second order", to);
	F f, g, h;
	unsigned long a = f(m, x);
	psx_assert(f(n, y) == g(n, y) && f(m, x) == a && h(m, x) == a, "the value depends on the order and the argument alone");
}
PSX_CASE(repeated)
{
	if (psx_choose("explicit", 2))
		twice<ChebyshevFunctionExplicit<unsigned long>>(PSX_T(10, 20));
	else
		twice<ChebyshevFunction<unsigned long>>(PSX_T(10, 20));
}
