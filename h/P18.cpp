// P18: operator expressions.
//@ src: PsimagLite.cpp
//@ bounds: one term of 1..3 real factors (thorough 4), sums of 1..2 real terms of 1..2 factors, one (thorough 1..2) complex term of 1..2 factors, sums of three terms number*symbols; each factor a symbol, a number of 1..2 symbolic digits with or without a fraction and with a minus sign in front of the term, an imaginary number, or parenthesised scalar arithmetic (one of + - * on two symbolic digits, nested once, with pi); real and complex scalars; every result left over from before; every text of up to 4 (thorough 6) characters over "A2*+-()i" is either evaluated as spelled or an error; sums of 12 and 30 terms of 2 to 8 factors, fixed but for one digit
//@ case large max_instr=60000000
//@ case large_complex max_instr=60000000
//@ assume: symbols multiply without commuting and add like polynomials; each term has a symbol, or evaluates to nothing
#include "psx.h"
#include "CanonicalExpression.h"
#include <complex>
#include <cstring>
#include <map>
using namespace PsimagLite;
typedef std::complex<double> Cx;
typedef unsigned long Sz;

// polynomials in symbols that do not commute
template <typename T>
struct Poly {
	typedef std::map<std::string, T> M;
	M m;
	int kind = 0; // what it is defined on: unlike ones cannot be combined
	Poly& operator+=(const Poly& o)
	{
		for (auto& x : o.m) {
			auto it = m.find(x.first);
			if (it == m.end())
				m[x.first] = x.second;
			else
				it->second += x.second;
		}
		return *this;
	}
	Poly& operator*=(const Poly& o)
	{
		M r;
		for (auto& x : m)
			for (auto& y : o.m)
				r[x.first + y.first] = x.second * y.second;
		m = r;
		return *this;
	}
	Poly& operator*=(const T& s)
	{
		for (auto& x : m)
			x.second *= s;
		return *this;
	}
};
struct Aux {
	Sz calls = 0;
};
template <typename T>
struct Spec {
	typedef Poly<T> ResultType;
	typedef T ComplexOrRealType;
	typedef Aux AuxiliaryType;
	ResultType operator()(String s, Aux& aux) const
	{
		++aux.calls;
		ResultType r;
		if (s == "A" || s == "B" || s == "c" || s == "n0" || s == "K") {
			if (s == "K")
				r.kind = 1;
			r.m[s] = T(1);
		} else if (s != "E") { // E is nothing
			throw RuntimeError("unknown symbol " + s);
		}
		return r;
	}
	static bool isEmpty(const ResultType& r) { return r.m.empty(); }
	static bool metaEqual(const ResultType& a, const ResultType& b) { return a.kind == b.kind; }
};
template <typename T>
static bool same(const T& a, const T& b)
{
	// the same bits, or at least equal numbers
	unsigned long x[sizeof(T) / 8], y[sizeof(T) / 8];
	memcpy(x, &a, sizeof(T));
	memcpy(y, &b, sizeof(T));
	bool bits = true;
	for (Sz i = 0; i < sizeof(T) / 8; ++i)
		bits &= x[i] == y[i];
	return bits || a == b;
}
static void obs(double x) { psx_observe_f(x); }
static void obs(const Cx& x)
{
	psx_observe_f(x.real());
	psx_observe_f(x.imag());
}
template <typename T>
static void evaluate(const std::string& text, const Poly<T>& want, bool used)
{
	Spec<T> spec;
	Poly<T> empty, r;
	if (used)
		r.m["B"] = T(7); // what a previous expression left
	Aux aux;
	CanonicalExpression<Spec<T>> ce(spec);
	bool any = ce(r, text, empty, aux);
	Sz n = want.m.size();
	if (n == 0)
		return; // nothing evaluated: what was there stays
	psx_assert(any, "something was evaluated");
	psx_assert(r.m.size() == n, "the products of symbols of the expression");
	for (auto& x : want.m) {
		auto it = r.m.find(x.first);
		psx_assert(it != r.m.end(), "the products of symbols of the expression");
		psx_assert(same(it->second, x.second), "coefficient of a product of symbols");
		obs(it->second);
	}
}

// numbers mean what the C library reads in them
static char digit(double& v)
{
	char t[2] = { (char)psx_range("digit", '0', '9'), 0 };
	v = strtod(t, nullptr);
	return t[0];
}
static std::string number(bool minus, double& v)
{
	double x;
	std::string s = minus ? "-" : "";
	s += digit(x);
	Sz form = psx_choose("number", 3);
	if (form == 2)
		s += ".";
	if (form > 0)
		s += digit(x);
	v = strtod(s.c_str(), nullptr);
	return s;
}
static const char* g_sym[4] = { "A", "B", "n0", "c" };
template <typename T>
struct IsC {
	enum { True = false };
};
template <>
struct IsC<Cx> {
	enum { True = true };
};
static Cx imag(double v, Cx*) { return Cx(0, v); }
static double imag(double v, double*) { return v; }
// one term with the given number of factors; the position of one of the symbols is fixed
template <typename T>
static std::string term(Sz n, Sz kinds, Poly<T>& p)
{
	Sz at = psx_choose("symbol at", n);
	std::string text, word;
	T f = 1.0;
	for (Sz i = 0; i < n; ++i) {
		if (i > 0)
			text += "*";
		Sz k = i == at ? 0 : psx_choose("factor", kinds);
		switch (k) {
		case 0: {
			std::string s = g_sym[(i + n) % 4];
			text += s;
			word += s;
			break;
		}
		case 1: {
			double v;
			text += number(i == 0 && psx_choose("minus", 2), v);
			f *= T(v);
			break;
		}
		case 2: {
			double a, b;
			int op = psx_choose("operation", 4);
			char ca = digit(a), cb = digit(b);
			text += std::string("(") + (op == 0 ? "+:" : op == 1 ? "-:" : op == 2 ? "*:" : "+:*:2:");
			text += ca;
			text += ":";
			text += cb;
			text += ")";
			f *= T(op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a * b + 2.0); // level by level
			break;
		}
		case 3: {
			double v = 1;
			if (psx_choose("unit", 2) == 0) {
				text += digit(v);
			}
			text += "i";
			f *= imag(v, (T*)nullptr);
			break;
		}
		}
	}
	Poly<T> t;
	t.m[word] = T(1);
	t *= f;
	p += t;
	return text;
}
template <typename T>
static void sums(Sz terms, Sz factors, Sz kinds)
{
	Poly<T> want;
	std::string text;
	Sz n = 1 + psx_choose("terms", terms);
	for (Sz i = 0; i < n; ++i) {
		if (i > 0)
			text += "+";
		Sz k = 1 + psx_choose("factors", factors);
		text += term<T>(k, kinds, want);
	}
	evaluate<T>(text, want, false);
}
PSX_CASE(real_term) { sums<double>(1, PSX_T(3, 4), 3); }
PSX_CASE(real_sum) { sums<double>(2, 2, 3); }
PSX_CASE(complex_sum) { sums<Cx>(PSX_T(1, 2), 2, 4); }
PSX_CASE(three_terms)
{
	// A, B and products in every order, like terms add up
	Poly<double> want;
	std::string text;
	for (Sz i = 0; i < 3; ++i) {
		double v;
		std::string s = psx_choose("minus", 2) ? "-" : "", w;
		s += digit(v);
		v = strtod(s.c_str(), nullptr);
		Sz k = psx_choose("word", 4);
		w = k == 0 ? "A" : k == 1 ? "B" : k == 2 ? "AB" : "BA";
		text += std::string(i > 0 ? "+" : "") + s + "*" + w.substr(0, 1) + (k > 1 ? "*" + w.substr(1) : "");
		Poly<double> t;
		t.m[w] = 1.0;
		t *= 1.0 * v;
		want += t;
	}
	evaluate<double>(text, want, false);
}
// whatever the result held before, and with terms that are nothing
PSX_CASE(leftover)
{
	Poly<double> want;
	std::string text;
	Sz n = 1 + psx_choose("terms", 3);
	for (Sz i = 0; i < n; ++i) {
		Poly<double> t;
		double v;
		std::string s(1, digit(v));
		bool nothing = psx_choose("nothing", 2);
		text += std::string(i > 0 ? "+" : "") + s + (nothing ? "*E" : "*A");
		if (nothing)
			continue;
		t.m["A"] = 1.0 * v;
		want += t;
	}
	evaluate<double>(text, want, psx_choose("before", 2));
}
PSX_CASE(pi)
{
	Poly<double> want;
	double v;
	std::string text = "(*:";
	text += digit(v);
	text += ":pi)*A";
	Spec<double> spec;
	Poly<double> empty, r;
	Aux aux;
	CanonicalExpression<Spec<double>> ce(spec);
	ce(r, text, empty, aux);
	double x = r.m["A"], w = v * 3.14159265358979;
	psx_assert(x - w < 1e-4 && w - x < 1e-4, "pi in scalar arithmetic");
}
// symbols of unlike kinds cannot be combined
PSX_CASE(unlike)
{
	static const char* bad[] = { "A*K", "K*A", "A+K", "K+A", "A+B*K", "2*K+A", "K*2*A" };
	Spec<double> spec;
	Poly<double> empty, r;
	Aux aux;
	CanonicalExpression<Spec<double>> ce(spec);
	bool thrown = false;
	try {
		ce(r, bad[psx_choose("text", 7)], empty, aux);
	} catch (std::exception&) {
		thrown = true;
	}
	psx_assert(thrown, "symbols of unlike kinds are an error");
}

// ------------------------------------------------------------------ any text
static std::vector<std::string> pieces(const std::string& s, char c)
{
	std::vector<std::string> r(1);
	for (Sz i = 0; i < s.size(); ++i) {
		if (s[i] != c) {
			r.back() += s[i];
		} else if (!r.back().empty()) { // repeated separators count as one
			r.push_back("");
		}
	}
	if (r.back().empty())
		r.pop_back();
	return r;
}
static bool number2(const std::string& s, double& v)
{
	Sz i = s[0] == '-' ? 1 : 0;
	double w = 0;
	for (Sz j = i; j < s.size(); ++j) {
		if (s[j] != '2')
			return false;
		w = 10 * w + 2;
	}
	if (i == s.size())
		return false;
	v = i ? -w : w;
	return true;
}
// what a text over "A2*+-()i" means: false if it is not in the grammar
static bool meaning(const std::string& s, Poly<Cx>& p, bool& real)
{
	real = true;
	bool open = false;
	for (Sz i = 0; i < s.size(); ++i) {
		if (s[i] == '-' && i > 0 && s[i - 1] != '(' && s[i - 1] != '+')
			return false;
		if (s[i] == '(' || s[i] == ')') {
			if (open == (s[i] == '('))
				return false;
			open = !open;
		} else if (open && (s[i] == '*' || s[i] == '+')) {
			return false; // operators of scalar arithmetic have no operands here
		}
	}
	if (open)
		return false;
	for (const std::string& t : pieces(s, '+')) {
		Cx f(1);
		std::string word;
		for (const std::string& x : pieces(t, '*')) {
			double v = 1;
			Sz n = x.size();
			if (x == "A") {
				word += x;
			} else if (x == "i" || (x[n - 1] == 'i' && n > 1 && number2(x.substr(0, n - 1), v))) {
				real = false;
				f *= Cx(0, v);
			} else if (x[0] == '(' && x[n - 1] == ')' && n > 2) {
				std::string y = x.substr(1, n - 2);
				Sz k = y.size();
				if (number2(y, v)) {
					f *= v;
				} else if (y == "i" || y == "-i" || (y[k - 1] == 'i' && number2(y.substr(0, k - 1), v))) {
					real = false;
					f *= Cx(0, y == "-i" ? -1 : v);
				} else {
					return false;
				}
			} else if (number2(x, v)) {
				f *= v;
			} else {
				return false;
			}
		}
		if (word.empty())
			continue;
		Poly<Cx> q;
		q.m[word] = f;
		p += q;
	}
	return true;
}
PSX_CASE(texts)
{
	Sz len = 1 + psx_choose("length", PSX_T(4, 6));
	std::string text = psx_enum_string("c", len, "A2*+-()i");
	Poly<Cx> want;
	bool real = true;
	bool good = meaning(text, want, real);
	Spec<Cx> spec;
	Poly<Cx> empty, r;
	Aux aux;
	CanonicalExpression<Spec<Cx>> ce(spec);
	bool thrown = false;
	try {
		ce(r, text, empty, aux);
	} catch (std::exception&) {
		thrown = true;
	}
	psx_observe(thrown);
	if (!good)
		return;
	psx_assert(!thrown, "a well-formed expression is evaluated");
	psx_assert(r.m.size() == want.m.size(), "the products of symbols of the expression");
	for (auto& x : want.m)
		psx_assert(r.m.count(x.first) && r.m[x.first] == x.second, "coefficient of a product of symbols");
}
PSX_CASE(texts_wrong)
{
	Sz len = 1 + psx_choose("length", PSX_T(4, 5));
	std::string text = psx_enum_string("c", len, "A2*+-()i");
	Poly<Cx> want;
	bool real = true, isReal = psx_choose("scalars", 2) == 0;
	bool good = meaning(text, want, real);
	if (isReal)
		good = good && real;
	// a number in parentheses can have a plus sign and be a complex literal: those texts are not judged here
	Sz open = text.find('(');
	if (open != std::string::npos && text.find('+', open) < text.find(')', open))
		psx_stop();
	if (good)
		psx_stop();
	bool thrown = false;
	Aux aux;
	try {
		if (isReal) {
			Spec<double> spec;
			Poly<double> empty, r;
			CanonicalExpression<Spec<double>> ce(spec);
			ce(r, text, empty, aux);
		} else {
			Spec<Cx> spec;
			Poly<Cx> empty, r;
			CanonicalExpression<Spec<Cx>> ce(spec);
			ce(r, text, empty, aux);
		}
	} catch (std::exception&) {
		thrown = true;
	}
	psx_assert(thrown, "a malformed expression is an error");
}
// many parenthesised scalars: each factor keeps its own
PSX_CASE(many)
{
	Poly<Cx> want;
	std::string text;
	Sz terms = 1 + psx_choose("terms", 4), n = 0, count = 9 + psx_choose("scalars", 5), at = psx_choose("symbolic one", count);
	for (Sz i = 0; i < terms; ++i) {
		text += i > 0 ? "+" : "";
		Cx f(1);
		Sz here = i + 1 == terms ? count - n : count / terms;
		for (Sz j = 0; j < here; ++j, ++n) {
			double v = n % 3 + 2;
			char c = '0' + n % 3 + 2;
			if (n == at)
				c = digit(v);
			text += std::string("(+:1:") + c + ")*";
			f *= Cx(1.0 + v);
		}
		text += i % 2 ? "A" : "B";
		Poly<Cx> t;
		t.m[i % 2 ? "A" : "B"] = Cx(1);
		t *= f;
		want += t;
	}
	evaluate<Cx>(text, want, false);
}

// long sums of long products, fixed but for one digit
template <typename T>
static void largeSum()
{
	static const char* names[] = { "A", "B", "c", "n0" };
	Poly<T> want;
	std::string text;
	Sz terms = psx_choose("terms", 2) ? 12 : 30, at = psx_choose("symbolic one", 3) * (terms / 2);
	at = at < terms ? at : terms - 1;
	for (Sz i = 0; i < terms; ++i) {
		T f(1);
		std::string word;
		Sz m = 2 + i % 7;
		text += i > 0 ? "+" : "";
		for (Sz j = 0; j < m; ++j) {
			text += j ? "*" : "";
			if (j == i % m && j + 1 < m) {
				double v = 1 + (i + j) % 5;
				char c = '0' + (char)(int)v;
				if (i == at)
					c = digit(v);
				text += c;
				f *= v;
			} else {
				const char* x = names[(i * i + j * 3) % 4];
				text += x;
				word += x;
			}
		}
		Poly<T> t;
		t.m[word] = f;
		want += t;
	}
	evaluate<T>(text, want, psx_choose("used", 2));
}
PSX_CASE(large) { largeSum<double>(); }
PSX_CASE(large_complex) { largeSum<Cx>(); }
