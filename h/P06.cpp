// P06: vector expressions, scalar products and vector utilities.
//@ bounds: vectors of length 0..3 (quick) / 0..5 (thorough), every integer entry in [-4,4] (parts in [-3,3] for complex), destinations of length 0..3 with other contents; file names up to 5 characters; larger ones of fixed shape and pattern (tens of rows, hundreds of entries) with a few symbolic values; numbers near 1e-18 too; scalings by an entry of the destination itself, every entry and shape or length up to 3 (sparse 2x2)
//@ case large_real max_instr=60000000
//@ case large_complex max_instr=60000000
//@ case large_index max_instr=60000000
#include "mat.h"
using namespace PsimagLite;

template <typename T>
static void scalar(T& s) { symValue(s, -3, 3); }
static Sz len(const char* n) { return psx_choose(n, PSX_T(4, 6)); }
template <typename T>
static void obsV(const std::vector<T>& v)
{
	for (Sz i = 0; i < v.size(); ++i)
		obs(v[i]);
}

template <typename T>
static void expressions()
{
	Sz n = len("n");
	std::vector<T> a = symVec<T>(n), b = symVec<T>(n), c = symVec<T>(n), d = symVec<T>(n);
	const std::vector<T> a0 = a, b0 = b, c0 = c, d0 = d;
	std::vector<T> r(psx_choose("dest", 2) ? n + 2 : 0, T(9));
	T s, t, u, w;
	scalar(s), scalar(t), scalar(u), scalar(w);
	std::vector<T> e(n);
	const char* what = "";
	switch (psx_choose("form", 14)) {
	case 0:
		r <= a + b;
		for (Sz i = 0; i < n; ++i) e[i] = a0[i] + b0[i];
		what = "a + b";
		break;
	case 1:
		r <= a - b;
		for (Sz i = 0; i < n; ++i) e[i] = a0[i] - b0[i];
		what = "a - b";
		break;
	case 2:
		r <= s * a;
		for (Sz i = 0; i < n; ++i) e[i] = s * a0[i];
		what = "s * a";
		break;
	case 3:
		r <= a * s;
		for (Sz i = 0; i < n; ++i) e[i] = s * a0[i];
		what = "a * s";
		break;
	case 4:
		r <= s * (t * a);
		for (Sz i = 0; i < n; ++i) e[i] = s * t * a0[i];
		what = "s * (t * a)";
		break;
	case 5:
		r <= a + s * b;
		for (Sz i = 0; i < n; ++i) e[i] = a0[i] + s * b0[i];
		what = "a + s * b";
		break;
	case 6:
		r <= s * a + b;
		for (Sz i = 0; i < n; ++i) e[i] = s * a0[i] + b0[i];
		what = "s * a + b";
		break;
	case 7:
		r <= s * (a + b);
		for (Sz i = 0; i < n; ++i) e[i] = s * (a0[i] + b0[i]);
		what = "s * (a + b)";
		break;
	case 8:
		r <= s * (a - b);
		for (Sz i = 0; i < n; ++i) e[i] = s * (a0[i] - b0[i]);
		what = "s * (a - b)";
		break;
	case 9:
		r <= a - s * b;
		for (Sz i = 0; i < n; ++i) e[i] = a0[i] - s * b0[i];
		what = "a - s * b";
		break;
	case 10:
		r <= s * a + t * b + u * c + w * d;
		for (Sz i = 0; i < n; ++i) e[i] = s * a0[i] + t * b0[i] + u * c0[i] + w * d0[i];
		what = "s * a + t * b + u * c + w * d";
		break;
	case 11:
		r <= a - s * b + t * c;
		for (Sz i = 0; i < n; ++i) e[i] = a0[i] - s * b0[i] + t * c0[i];
		what = "a - s * b + t * c";
		break;
	case 12:
		// the destination is an operand
		a <= a + s * b;
		for (Sz i = 0; i < n; ++i) e[i] = a0[i] + s * b0[i];
		r = a, a = a0;
		what = "a <= a + s * b";
		break;
	default:
		a <= b - s * a;
		for (Sz i = 0; i < n; ++i) e[i] = b0[i] - s * a0[i];
		r = a, a = a0;
		what = "a <= b - s * a";
	}
	checkIs(r, e, what);
	checkIs(a, a0, "operand unmodified");
	checkIs(b, b0, "operand unmodified");
	checkIs(c, c0, "operand unmodified");
	checkIs(d, d0, "operand unmodified");
	obsV(r);
}
PSX_CASE(expressions_real) { expressions<double>(); }
PSX_CASE(expressions_complex) { expressions<Cx>(); }

template <typename T>
static void inplace()
{
	Sz n = len("n");
	std::vector<T> a = symVec<T>(n), b = symVec<T>(n);
	const std::vector<T> a0 = a, b0 = b;
	T s;
	scalar(s);
	std::vector<T> e(n), got;
	switch (psx_choose("form", 6)) {
	case 0:
		got = (a += b);
		for (Sz i = 0; i < n; ++i) e[i] = a0[i] + b0[i];
		break;
	case 1:
		got = (a -= b);
		for (Sz i = 0; i < n; ++i) e[i] = a0[i] - b0[i];
		break;
	case 2:
		got = (a += s * b);
		for (Sz i = 0; i < n; ++i) e[i] = a0[i] + s * b0[i];
		break;
	case 3:
		got = (a -= s * b);
		for (Sz i = 0; i < n; ++i) e[i] = a0[i] - s * b0[i];
		break;
	case 4:
		got = (a *= s);
		for (Sz i = 0; i < n; ++i) e[i] = a0[i] * s;
		break;
	default: {
		// exact division by a power of two
		const double p = 1 << psx_choose("p", 3);
		for (Sz i = 0; i < n; ++i) a[i] *= p;
		got = (a /= p);
		e = a0;
	}
	}
	checkIs(a, e, "in-place operation");
	checkIs(got, e, "its value");
	checkIs(b, b0, "operand unmodified");
	obsV(a);
}
PSX_CASE(inplace_real) { inplace<double>(); }
PSX_CASE(inplace_complex) { inplace<Cx>(); }

template <typename T>
static void products()
{
	Sz n = len("n"), m = len("m");
	std::vector<T> a = symVec<T>(n), b = symVec<T>(m);
	bool t1 = false, t2 = false;
	T x = 0, y = 0;
	try {
		x = scalarProduct(a, b);
	} catch (RuntimeError&) {
		t1 = true;
	}
	try {
		y = a * b;
	} catch (std::runtime_error&) {
		t2 = true;
	}
	psx_assert(t1 == (n != m), "scalarProduct refuses different lengths");
	psx_assert(t2 == (n != m), "the product of two vectors refuses different lengths");
	if (n == m) {
		T p = 0, q = 0, u = 0;
		for (Sz i = 0; i < n; ++i) {
			p += cj(a[i]) * b[i];
			q += a[i] * cj(b[i]);
			u += a[i];
		}
		psx_assert(same(x, p), "scalarProduct conjugates its first argument");
		psx_assert(same(y, q), "the product of two vectors conjugates the second");
		psx_assert(same(sum(a), u), "sum of the elements");
		obs(x);
		obs(y);
	}
}
PSX_CASE(products_real) { products<double>(); }
PSX_CASE(products_complex) { products<Cx>(); }

// the norm is the root of the squared moduli: taken on vectors whose squared norm is a square
PSX_CASE(norms)
{
	int k = psx_int("k", -6, 6), q = psx_int("q", -6, 6);
	std::vector<double> a(3);
	bool f = psx_choose("f", 2);
	a[0] = f ? 3.0 * k : 1.0 * k;
	a[1] = f ? 4.0 * k : 2.0 * k;
	a[2] = f ? 0.0 : -2.0 * k;
	double want = (f ? 5.0 : 3.0) * (k < 0 ? -k : k);
	psx_assert(norm(a) == want, "norm of a real vector");
	std::vector<Cx> b(2);
	b[0] = Cx(3.0 * q, 0.0);
	b[1] = Cx(0.0, -4.0 * q);
	if (f) {
		b[0] = Cx(2.0 * q, 1.0 * q);
		b[1] = Cx(-2.0 * q, 4.0 * q);
	}
	psx_assert(norm(b) == 5.0 * (q < 0 ? -q : q), "norm of a complex vector");
	psx_observe_f(norm(a));
	psx_observe_f(norm(b));
}

PSX_CASE(index_of)
{
	Sz n = len("n");
	std::vector<int> v(n);
	for (Sz i = 0; i < n; ++i)
		v[i] = psx_int("v", -100000, 100000);
	int x = psx_int("x", -100000, 100000);
	int want = -1;
	for (Sz i = n; i-- > 0;)
		want = v[i] == x ? (int)i : want;
	int got = indexOrMinusOne(v, x);
	psx_assert(got == want, "first position, or minus one when absent");
	psx_observe(got);
}

// a list of rows times a vector
PSX_CASE(rows_times_vector)
{
	Sz r = psx_choose("r", 4), c = psx_choose("c", 4);
	std::vector<std::vector<double>> a(r);
	for (Sz i = 0; i < r; ++i)
		a[i] = symVec<double>(c);
	std::vector<double> x = symVec<double>(c), e(r, 0.0);
	for (Sz i = 0; i < r; ++i)
		for (Sz j = 0; j < c; ++j)
			e[i] += a[i][j] * x[j];
	std::vector<double> y = a * x;
	checkIs(y, e, "rows times vector");
	obsV(y);
}

struct Seq {
	typedef double value_type;
	mutable int k = 0;
	double q[3];
	double random() const { return q[k++]; }
};
PSX_CASE(randomize)
{
	Seq r;
	for (int i = 0; i < 3; ++i)
		r.q[i] = psx_dbl("q", -5, 5);
	int a = psx_int("a", -5, 5), b = psx_int("b", -5, 5);
	std::vector<double> v(psx_choose("n", 4), 8.0);
	randomizeVector(v, a, b, r);
	for (Sz i = 0; i < v.size(); ++i)
		psx_assert(v[i] == a + b * r.q[i], "each element is a fresh draw, scaled and shifted");
	psx_assert(r.k == (int)v.size(), "one draw per element");
}

PSX_CASE(base_name)
{
	Sz n = psx_choose("len", PSX_T(6, 8));
	std::string s = psx_string("s", n, "ab./");
	std::string b = basenameOf(s);
	Sz last = n;
	for (Sz i = 0; i < n; ++i)
		if (s[i] == '.')
			last = i;
	psx_assert(b.size() == last, "what precedes the last dot");
	for (Sz i = 0; i < b.size() && i < n; ++i)
		psx_assert(b[i] == s[i], "the same letters");
	psx_observe_str(b);
}

// longer vectors
template <typename T>
static void big(Sz n)
{
	std::vector<T> a = bigVec<T>(n, 1), b = bigVec<T>(n, 2), c = bigVec<T>(n, 3), a0 = a, b0 = b, r, e(n);
	T s, t, p = 0, q = 0, u = 0;
	symValue(s, 1, 3);
	symValue(t, 1, 3);
	r <= s * a + b;
	for (Sz i = 0; i < n; ++i)
		e[i] = s * a[i] + b[i];
	checkIs(r, e, "s * a + b");
	r <= a - s * b + t * c;
	for (Sz i = 0; i < n; ++i)
		e[i] = a[i] - s * b[i] + t * c[i];
	checkIs(r, e, "a - s * b + t * c");
	r <= s * (a - b);
	for (Sz i = 0; i < n; ++i)
		e[i] = s * (a[i] - b[i]);
	checkIs(r, e, "s * (a - b)");
	r = a;
	r += b;
	r -= s * c;
	for (Sz i = 0; i < n; ++i)
		e[i] = a[i] + b[i] - s * c[i];
	checkIs(r, e, "in place");
	for (Sz i = 0; i < n; ++i) {
		p += cj(a[i]) * b[i];
		q += a[i] * cj(b[i]);
		u += a[i];
	}
	psx_assert(same(scalarProduct(a, b), p), "scalarProduct conjugates its first argument");
	psx_assert(same(a * b, q), "the product of two vectors conjugates the second");
	psx_assert(same(sum(a), u), "sum of the elements");
	checkIs(a, a0, "operand unmodified");
	checkIs(b, b0, "operand unmodified");
}
PSX_CASE(large_real)
{
	static const Sz n[] = { 8, 17, 65, 300 };
	big<double>(n[psx_choose("n", 4)]);
}
PSX_CASE(large_complex)
{
	static const Sz n[] = { 8, 33, 130 };
	big<Cx>(n[psx_choose("n", 3)]);
}
PSX_CASE(large_index)
{
	Sz n = 70;
	std::vector<int> v(n);
	for (Sz i = 0; i < n; ++i)
		v[i] = (i * 37) % 50;
	v[40] = psx_int("v", 0, 60);
	int x = psx_int("x", 0, 60), want = -1;
	for (Sz i = n; i-- > 0;)
		want = v[i] == x ? (int)i : want;
	psx_assert(indexOrMinusOne(v, x) == want, "first position, or minus one when absent");
	double s = 0;
	std::vector<double> w(n);
	for (Sz i = 0; i < n; ++i)
		w[i] = i < 49 ? 2 : 0;
	w[69] = psx_choose("last", 2) ? 0 : 14;
	for (Sz i = 0; i < n; ++i)
		s += w[i] * w[i];
	psx_assert(norm(w) * norm(w) - s < 1e-9 && norm(w) * norm(w) - s > -1e-9, "norm of a long vector");
}

// numbers near 1e-18 count
PSX_CASE(tiny)
{
	unit() = 1. / (1ul << 60);
	switch (psx_choose("what", 3)) {
	case 0: products<Cx>(); break;
	case 1: inplace<double>(); break;
	default: expressions<double>();
	}
}

// the number is an entry of the destination
template <typename T>
static void ownEntry()
{
	Sz n = 1 + psx_choose("n", PSX_T(3, 4)), k = psx_choose("entry", n);
	std::vector<T> a = symVec<T>(n), b = symVec<T>(n);
	const Sz form = psx_choose("form", 10);
	if (form == 1) {
		static const int ds[] = { 1, 2, -4 };
		a[k] = T(ds[psx_choose("divisor", 3)]);
	}
	const std::vector<T> a0 = a, b0 = b;
	const T s = a0[k];
	std::vector<T> e(n);
	switch (form) {
	case 0:
		a *= a[k];
		for (Sz i = 0; i < n; ++i) e[i] = a0[i] * s;
		break;
	case 1:
		a /= a[k];
		for (Sz i = 0; i < n; ++i) e[i] = a0[i] / s;
		break;
	case 2:
		a <= a[k] * b;
		for (Sz i = 0; i < n; ++i) e[i] = s * b0[i];
		break;
	case 3:
		a <= a[k] * a;
		for (Sz i = 0; i < n; ++i) e[i] = s * a0[i];
		break;
	case 4:
		a += a[k] * b;
		for (Sz i = 0; i < n; ++i) e[i] = a0[i] + s * b0[i];
		break;
	case 5:
		a -= a[k] * b;
		for (Sz i = 0; i < n; ++i) e[i] = a0[i] - s * b0[i];
		break;
	case 6:
		a <= b + a[k] * b;
		for (Sz i = 0; i < n; ++i) e[i] = b0[i] + s * b0[i];
		break;
	case 7:
		a <= b - a[k] * a;
		for (Sz i = 0; i < n; ++i) e[i] = b0[i] - s * a0[i];
		break;
	case 8:
		a <= a[k] * b + a;
		for (Sz i = 0; i < n; ++i) e[i] = s * b0[i] + a0[i];
		break;
	default:
		if (psx_choose("minus", 2)) {
			a <= a[k] * (a - b);
			for (Sz i = 0; i < n; ++i) e[i] = s * (a0[i] - b0[i]);
		} else {
			a <= a[k] * (a + b);
			for (Sz i = 0; i < n; ++i) e[i] = s * (a0[i] + b0[i]);
		}
	}
	checkIs(a, e, "the number is an entry of the destination");
	checkIs(b, b0, "operand unmodified");
	obsV(a);
}
PSX_CASE(own_entry_real) { ownEntry<double>(); }
PSX_CASE(own_entry_complex) { ownEntry<Cx>(); }
