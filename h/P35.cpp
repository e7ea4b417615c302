// P35: complex number literals.
//@ src: PsimagLite.cpp
//@ flags: -UUSE_BOOST
//@ bounds: every text of length 0..6 (quick) / 0..7 (thorough) over "1.-+ie" for the literals of the calculator, and of length 0..5 / 0..6 over "1.-+i" for the input language's and the one-unit literals, and over "(1.-,)" for the pairs of input files; digits of longer literals symbolic over 1..9; literals with listed numbers of up to 13 digits with a symbolic one
//@ case large max_instr=20000000
//@ assume: numbers are written as sign, digits with an optional point, optional exponent
#include "psx.h"
#include "PsimagLite.h"
#include "Vector.h"
#include "Complex.h"
#include "CmplxOrReal.h"
#include "InputNg.h"
#include "InputCheckBase.h"
#include "Ainur/AinurComplex.hh"
using namespace PsimagLite;
typedef std::complex<double> C;

static bool digit(char c) { return (c >= '0') & (c <= '9'); }
// longest number at i, with its sign; returns its length, 0 if there is none
static size_t number(const std::string& s, size_t i, double& v)
{
	size_t k = i;
	bool neg = false;
	if (k < s.size() && (s[k] == '+' || s[k] == '-'))
		neg = s[k++] == '-';
	long m = 0;
	double scale = 1;
	size_t nd = 0;
	while (k < s.size() && digit(s[k]))
		m = m * 10 + (s[k++] - '0'), ++nd;
	if (k < s.size() && s[k] == '.') {
		++k;
		while (k < s.size() && digit(s[k]))
			m = m * 10 + (s[k++] - '0'), ++nd, scale *= 10;
	}
	if (!nd)
		return 0;
	int ex = 0;
	if (k < s.size() && (s[k] == 'e' || s[k] == 'E')) {
		size_t q = k + 1;
		bool eneg = false;
		if (q < s.size() && (s[q] == '+' || s[q] == '-'))
			eneg = s[q++] == '-';
		size_t q0 = q;
		while (q < s.size() && digit(s[q]))
			ex = ex * 10 + (int)(psx_concrete((unsigned char)s[q++]) - '0');
		if (q > q0)
			k = q;
		else
			ex = 0;
		if (eneg)
			ex = -ex;
	}
	if (neg)
		m = -m;
	if (ex)
		m = (long)psx_concrete((uint64_t)m);
	v = (double)m;
	if (scale != 1)
		v /= scale;
	for (; ex > 0; --ex)
		v *= 10;
	double div = 1;
	for (; ex < 0; ++ex)
		div *= 10;
	if (div != 1)
		v /= div;
	return k - i;
}
static bool close(double a, double b)
{
	uint64_t x, y;
	memcpy(&x, &a, 8);
	memcpy(&y, &b, 8);
	if (x == y)
		return true;
	double d = a - b, m = (b < 0 ? -b : b) + 1e-300;
	return d <= 1e-12 * m && d >= -1e-12 * m;
}
static bool same(C a, C b) { return close(a.real(), b.real()) && close(a.imag(), b.imag()); }
// one literal: a, bi, i, a+bi, a-bi, a+-bi
static bool literal(const std::string& s, C& c)
{
	double v = 0;
	size_t n = number(s, 0, v);
	if (n == s.size() && n > 0) {
		c = v;
		return true;
	}
	// imaginary part with sign q at position k
	size_t k = n;
	double re = n ? v : 0;
	if (n && s[n] == 'i') {
		c = C(0, v);
		return n + 1 == s.size();
	}
	std::string t = s.substr(k);
	if (n && t.size() > 1 && t[0] == '+' && t[1] == '-')
		t = t.substr(1);
	if (n && (t.empty() || (t[0] != '+' && t[0] != '-')))
		return false;
	double im = 0;
	size_t m = number(t, 0, im);
	if (m == 0) {
		if (t != "i" && t != "+i" && t != "-i")
			return false;
		c = C(re, t[0] == '-' ? -1 : 1);
		return true;
	}
	if (m + 1 != t.size() || t[m] != 'i')
		return false;
	c = C(re, im);
	return true;
}
static void checkLiteral(const std::string& s)
{
	C want, got;
	bool ok = false;
	try {
		got = stringToComplex(s);
		ok = true;
	} catch (std::exception&) {
	}
	bool good = literal(s, want);
	psx_assert(ok == good, "what is not a complex number, and only that, is an error");
	if (ok)
		psx_assert(same(got, want), "real and imaginary part as written");
}
PSX_CASE(literal_any)
{
	checkLiteral(psx_string("c", psx_choose("n", PSX_T(7, 8)), "1.-+ie"));
}
PSX_CASE(literal_parts)
{
	static const char* const signs[] = { "", "+", "-", "+-" };
	static const char* const tails[] = { "", ".5", "e1", "e-1" };
	std::string s = signs[psx_choose("sign", 3)];
	s += (char)psx_range("digit", '1', '9');
	s += tails[psx_choose("tail", 4)];
	s += signs[psx_choose("sign", 4)];
	if (psx_bool("number"))
		s += (char)psx_range("digit", '1', '9');
	s += tails[psx_choose("tail", 2)];
	s += "i";
	checkLiteral(s);
}
// a number with one i anywhere is imaginary
PSX_CASE(unit_any)
{
	std::string s = psx_string("c", psx_choose("n", PSX_T(6, 7)), "1.-+i"), t;
	size_t is = 0;
	for (size_t k = 0; k < s.size(); ++k)
		if (s[k] == 'i')
			++is;
		else
			t += s[k];
	bool ok = false, ok2 = false;
	C got, got2;
	try {
		CpmlxOrReal<double, 1> c(s);
		got = c.value();
		ok = true;
	} catch (RuntimeError&) {
	}
	try {
		CpmlxOrReal<double, 0> c(s);
		got2 = c.value();
		ok2 = true;
	} catch (RuntimeError&) {
	}
	double v = 1;
	bool good = is < 2 && (t.empty() ? is == 1 : number(t, 0, v) == t.size());
	psx_assert(ok == good, "what is not a number or an imaginary number is an error");
	if (ok)
		psx_assert(same(got, is ? C(0, v) : C(v, 0)), "real or imaginary part as written");
	psx_assert(ok2 == (good && !is), "imaginary numbers are errors in real code");
	if (ok2)
		psx_assert(same(got2, v), "number as written");
}
// input language: a, ib, aib, i, -i
PSX_CASE(language_any)
{
	std::string s = psx_string("c", psx_choose("n", PSX_T(6, 7)), "1.-+i");
	bool ok = false;
	C c;
	try {
		AinurComplex::convert(c, s);
		ok = true;
	} catch (RuntimeError&) {
	}
	double re = 0, im = 0;
	bool good;
	size_t k = 0;
	while (k < s.size() && s[k] != 'i')
		++k;
	if (s == "i" || s == "-i") {
		good = true;
		im = s == "i" ? 1 : -1;
	} else {
		good = k == 0 && s.size() ? true : number(s, 0, re) == k && k > 0;
		if (k < s.size())
			good = good && k + 1 < s.size() && number(s, k + 1, im) == s.size() - k - 1;
	}
	psx_assert(ok == good, "what is not a complex number is an error");
	if (ok)
		psx_assert(same(c, C(re, im)), "real and imaginary part as written");
}
// input files: (a,b) or a
static void pairOf(const std::string& s)
{
	typedef InputNg<InputCheckBase> In;
	double re = 0, im = 0;
	bool good;
	if (!s.empty() && s[0] == '(') {
		size_t n = number(s, 1, re), m = 0;
		good = n > 0 && n + 1 < s.size() && s[n + 1] == ',';
		if (good) {
			m = number(s, n + 2, im);
			good = m > 0 && n + m + 3 == s.size() && s[n + m + 2] == ')';
		}
	} else
		good = number(s, 0, re) == s.size() && !s.empty();
	bool ok = false;
	C c;
	try {
		InputCheckBase check;
		In::Writeable w(check, "v 1 " + s + "\n");
		In::Readable r(w);
		std::vector<C> v;
		r.read(v, "v");
		psx_assert(v.size() == 1, "one number");
		c = v[0];
		ok = true;
	} catch (RuntimeError&) {
	}
	psx_assert(ok == good, "what is not a complex number is an error");
	if (ok)
		psx_assert(same(c, C(re, im)), "real and imaginary part as written");
}
PSX_CASE(pair_any)
{
	pairOf(psx_string("c", psx_choose("n", PSX_T(6, 7)), "(1.-,)"));
}
PSX_CASE(pair_parts)
{
	static const char* const nums[] = { "1", "-2.5", "+3e1", "", "x" };
	std::string s = psx_choose("open", 2) ? "(" : "";
	s += nums[psx_choose("a", 5)];
	s += psx_choose("comma", 2) ? "," : "";
	s += nums[psx_choose("b", 5)];
	s += psx_choose("close", 2) ? ")" : "";
	pairOf(s);
}

// numbers of many digits
PSX_CASE(large)
{
	static const char* const parts[] = { "12345.678901", "0.000012345678", "98765432109e-3", "7e12", "1234567890123", ".125" };
	static const char* const signs[] = { "", "+", "-", "+-" };
	std::string s = signs[psx_choose("sign", 3)];
	if (psx_choose("real part", 2)) {
		s += parts[psx_choose("real", 6)];
		s += signs[1 + psx_choose("sign", 3)];
	}
	std::string im = parts[psx_choose("imaginary", 6)];
	for (size_t i = 0; i < im.size(); ++i)
		if (im[i] == '5') {
			im[i] = (char)psx_range("digit", '0', '9');
			break;
		}
	s += im;
	if (psx_choose("i", 2))
		s += "i";
	checkLiteral(s);
}
