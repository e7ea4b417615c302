// P17: operator-first expressions.
//@ src: PsimagLite.cpp
//@ bounds: every complete expression of 1..5 tokens (quick) / 1..7 tokens (thorough) over + - * / % ? cos and numbers of one symbolic digit with optional sign, evaluated for double; every complete expression of 1..5 tokens over + - * and numbers for int, unsigned and complex; every incomplete expression of 0..4 / 0..6 tokens; sin, cos, exp, log, ? of symbolic values; expressions of up to 81 tokens of fixed shape, with and without conditionals, with one symbolic digit
//@ case large max_instr=60000000
//@ assume: sin, cos, exp and log are the C library functions (uninterpreted)
#include "psx.h"
#include "AST/ExpressionForAST.h"
#include "AST/PlusMinusMultiplyDivide.h"
using namespace PsimagLite;

struct Tok {
	std::string text;
	size_t arity;
	long v;
};
static Tok token(size_t nsym)
{
	static const char* T[] = { "", "+", "-", "*", "/", "%", "?", "cos" };
	static const size_t A[] = { 0, 2, 2, 2, 2, 2, 3, 1 };
	size_t k = psx_choose("token", nsym);
	Tok t;
	t.text = T[k];
	t.arity = A[k];
	t.v = 0;
	return t;
}
static void number(Tok& t, bool sign)
{
	std::string s;
	if (sign)
		s = "-";
	s += (char)psx_range("digit", sign ? '1' : '0', '9');
	t.v = s[s.size() - 1] - '0';
	if (sign)
		t.v = -t.v;
	t.text = s;
}
static bool sameBits(double a, double b)
{
	uint64_t x, y;
	memcpy(&x, &a, 8);
	memcpy(&y, &b, 8);
	return x == y || a == b; // the sign of zero is not told apart
}
static double absd(double x) { return x < 0 ? -x : x; }
// operands of token i start where those of the tokens before it end
template <typename T>
static T value(const std::vector<Tok>& e, size_t i)
{
	size_t first = 1;
	for (size_t k = 0; k < i; ++k)
		first += e[k].arity;
	const std::string& s = e[i].text;
	if (e[i].arity == 0)
		return T((double)e[i].v);
	T a = value<T>(e, first);
	if (s == "cos")
		return cos(a);
	T b = value<T>(e, first + 1);
	if (s == "+")
		return a + b;
	if (s == "-")
		return a - b;
	if (s == "*")
		return a * b;
	psx_assert(false, "not reached");
	return a;
}
template <>
double value<double>(const std::vector<Tok>& e, size_t i)
{
	size_t first = 1;
	for (size_t k = 0; k < i; ++k)
		first += e[k].arity;
	const std::string& s = e[i].text;
	if (e[i].arity == 0)
		return (double)e[i].v;
	double a = value<double>(e, first);
	if (s == "cos")
		return cos(a);
	double b = value<double>(e, first + 1);
	if (s == "+")
		return a + b;
	if (s == "-")
		return a - b;
	if (s == "*")
		return a * b;
	if (s == "/") {
		if (b * b < 1e-6)
			return a;
		return a / b;
	}
	if (s == "%") {
		unsigned long x = (unsigned long)(int)absd(a), y = (unsigned long)(int)absd(b);
		return (double)(y == 0 ? x : x % y);
	}
	double c = value<double>(e, first + 2);
	return (unsigned long)absd(a) ? b : c;
}
static bool build(std::vector<Tok>& e, size_t most, size_t nsym)
{
	// every complete expression of at most that many tokens
	size_t open = 1;
	while (open > 0) {
		if (e.size() + open > most)
			return false;
		Tok t = token(nsym);
		open = open - 1 + t.arity;
		e.push_back(t);
	}
	return true;
}
static Vector<String>::Type texts(const std::vector<Tok>& e)
{
	Vector<String>::Type r;
	for (size_t i = 0; i < e.size(); ++i)
		r.push_back(e[i].text);
	return r;
}
template <typename T>
static T run(const std::vector<Tok>& e)
{
	typedef PlusMinusMultiplyDivide<T> P;
	P p;
	ExpressionForAST<P> x(texts(e), p);
	return x.exec();
}
PSX_CASE(tree)
{
	std::vector<Tok> e;
	if (!build(e, PSX_T(5, 7), 6))
		return;
	bool neg = psx_choose("negative first", 2);
	// a quotient that is divided by or reduced again: a few values instead of symbolic ones
	size_t div = 0, mod = 0;
	for (size_t i = 0; i < e.size(); ++i) {
		div += e[i].text == "/";
		mod += e[i].text == "%";
	}
	bool few = div > 1 || (div && mod);
	for (size_t i = 0; i < e.size(); ++i)
		if (e[i].arity == 0) {
			if (few) {
				e[i].v = psx_choose("value", 2) ? 7 - (long)i : 0;
				e[i].text = std::to_string(e[i].v);
			} else
				number(e[i], neg);
			neg = false;
		}
	double r = run<double>(e), x = value<double>(e, 0);
	psx_assert(sameBits(r, x), "value of the expression");
	psx_observe_f(r);
}
PSX_CASE(functions)
{
	std::vector<Tok> e;
	if (!build(e, PSX_T(5, 6), 8))
		return;
	bool used = false;
	for (size_t i = 0; i < e.size(); ++i)
		used = used || e[i].text == "?" || e[i].text == "cos";
	if (!used)
		return;
	for (size_t i = 0; i < e.size(); ++i)
		if (e[i].arity == 0)
			number(e[i], false);
	// the remainder of a cosine would need its value
	for (size_t i = 0; i < e.size(); ++i)
		if (e[i].text == "%" || e[i].text == "/")
			return;
	for (size_t i = 1; i < e.size(); ++i)
		if (e[0].text == "?" && e[i].text == "cos")
			return;
	double r = run<double>(e), x = value<double>(e, 0);
	psx_assert(sameBits(r, x), "value of the expression");
}
PSX_CASE(each_function)
{
	static const char* F[] = { "sin", "cos", "exp", "log" };
	size_t k = psx_choose("function", 4), g = psx_choose("around", 3);
	std::vector<Tok> e;
	Tok f = { F[k], 1, 0 }, n = { "", 0, 0 };
	number(n, false);
	if (g == 1) {
		Tok m = { "-", 2, 0 }, o = { "3", 0, 3 };
		e.push_back(m);
		e.push_back(o);
	}
	if (g == 2) {
		Tok m = { "sin", 1, 0 };
		e.push_back(m);
	}
	e.push_back(f);
	e.push_back(n);
	double a = (double)n.v;
	double x = k == 0 ? sin(a) : k == 1 ? cos(a) : k == 2 ? exp(a) : log(a);
	if (g == 1)
		x = 3.0 - x;
	if (g == 2)
		x = sin(x);
	double r = run<double>(e);
	psx_assert(sameBits(r, x), "value of the function");
}
PSX_CASE(ternary)
{
	// the condition is compound; -9..9 covers zero and both signs
	std::vector<Tok> e;
	Tok q = { "?", 3, 0 }, m = { "-", 2, 0 }, n = { "", 0, 0 };
	e.push_back(q);
	e.push_back(m);
	Tok a = n, b = n, c = n, d = n;
	number(a, false);
	number(b, false);
	number(c, false);
	number(d, true);
	e.push_back(a);
	e.push_back(b);
	e.push_back(c);
	e.push_back(d);
	double r = run<double>(e);
	double x = c.v != d.v ? (double)a.v : (double)b.v;
	psx_assert(r == x, "condition selects");
}
template <typename T>
static void ring(size_t most)
{
	std::vector<Tok> e;
	if (!build(e, most, 4))
		return;
	for (size_t i = 0; i < e.size(); ++i)
		if (e[i].arity == 0)
			number(e[i], false);
	T r = run<T>(e), x = value<T>(e, 0);
	psx_assert(r == x, "value of the expression");
}
PSX_CASE(tree_int) { ring<int>(5); }
PSX_CASE(tree_size) { ring<SizeType>(5); }
PSX_CASE(tree_complex) { ring<std::complex<double>>(5); }
PSX_CASE(division_int)
{
	std::vector<Tok> e;
	Tok d = { psx_choose("op", 2) ? "/" : "%", 2, 0 }, a = { "", 0, 0 }, b = a;
	number(a, false);
	number(b, false);
	e.push_back(d);
	e.push_back(a);
	e.push_back(b);
	int r = run<int>(e);
	int x = b.v == 0 ? (int)a.v : d.text == "/" ? (int)(a.v / b.v) : (int)(a.v % b.v);
	psx_assert(r == x, "quotient and remainder of integers");
}
PSX_CASE(missing)
{
	size_t n = psx_choose("n", PSX_T(5, 7));
	std::vector<Tok> e;
	size_t open = 1;
	for (size_t i = 0; i < n; ++i) {
		Tok t = token(n > 4 ? 4 : 8);
		if (t.arity == 0)
			t.text = "7";
		t.v = 7;
		open = open - 1 + t.arity;
		e.push_back(t);
		if (open == 0)
			break;
	}
	bool ok = false;
	try {
		run<double>(e);
		ok = true;
	} catch (RuntimeError&) {
	}
	psx_assert(ok == (open == 0), "missing operands are an error");
}
PSX_CASE(extra)
{
	std::vector<Tok> e;
	if (!build(e, 4, 4))
		return;
	for (size_t i = 0; i < e.size(); ++i)
		if (e[i].arity == 0)
			number(e[i], false);
	double x = value<double>(e, 0);
	Tok t = token(4);
	if (t.arity == 0)
		t.text = "3";
	e.push_back(t);
	psx_assert(run<double>(e) == x, "what follows the complete expression is ignored");
}
PSX_CASE(not_a_number)
{
	// a token that is neither operator nor number
	size_t n = psx_choose("n", 4);
	std::string s(n, ' ');
	for (size_t i = 0; i < n; ++i)
		s[i] = (char)psx_u8("c");
	static const char* known[] = { "+", "-", "*", "/", "%", "?", "cos", "sin", "log", "exp" };
	for (size_t k = 0; k < 10; ++k)
		psx_assume(s != known[k]);
	for (size_t i = 0; i < n; ++i)
		psx_assume((s[i] < '0' || s[i] > '9') && s[i] != 0);
	bool threw = false;
	std::vector<Tok> e(3);
	e[0].text = "+";
	e[1].text = "1";
	e[2].text = s;
	try {
		run<double>(e);
	} catch (RuntimeError&) {
		threw = true;
	}
	psx_assert(threw, "neither operator nor number is an error");
}

// long expressions of fixed shape
PSX_CASE(large)
{
	static const size_t sizes[] = { 21, 41, 81 };
	size_t most = sizes[psx_choose("size", 3)], shape = psx_choose("shape", 4), at = psx_choose("symbolic", 3);
	bool cond = psx_choose("conditionals", 2);
	std::vector<Tok> e;
	size_t open = 1, seed = 7 + shape;
	while (open > 0) {
		Tok t = { "", 0, 0 };
		seed = seed * 1103515245 + 12345;
		size_t r = (seed >> 16) % 8;
		bool leaf = e.size() + open >= most || (open > 1 && r < 3 + shape);
		if (!leaf) {
			t.text = r == 0 ? "*" : r % 2 ? "+" : "-";
			t.arity = 2;
			if (cond && (seed >> 20) % 4 == 0) {
				t.text = "?";
				t.arity = 3;
			}
		} else {
			t.v = r + 1;
			t.text = std::to_string(t.v);
		}
		open = open - 1 + t.arity;
		e.push_back(t);
	}
	size_t k = at == 0 ? 0 : at == 1 ? e.size() / 2 : e.size() - 1;
	while (k < e.size() && e[k].arity)
		++k;
	number(e[k], false);
	double want = value<double>(e, 0), got = run<double>(e);
	psx_assert(sameBits(want, got), "value of the expression");
	psx_observe_f(got);
}
