// P15: string helpers of PsimagLite.cpp.
//@ src: PsimagLite.cpp
//@ bounds: split: every byte string of length 0..5 (quick) / 0..7 (thorough) with every delimiter set of 0..2 arbitrary bytes; replaceAll: every string of length 0..4 / 0..6 with every pattern and replacement of length 0..2; basename: every byte string of length 0..5 / 0..7; recognisers: every byte string of length 0..5 / 0..6; atoi: every text of length 0..4 / 0..6 over arbitrary bytes and all numbers of up to 11 digits; atof: every text up to length 4 / 5 over "07.+-eE x" and every decimal of the form sdd.dd with symbolic digits; texts of 17 to 260 characters with two symbolic ones
//@ assume: the C library functions strtol/strtod return the value of the longest numeric prefix
//@ case large max_instr=60000000
#include "psx.h"
#include "PsimagLite.h"
using namespace PsimagLite;

static String bytes(SizeType n, const char* name)
{
	String s(n, ' ');
	for (SizeType i = 0; i < n; ++i)
		s[i] = (char)psx_u8(name);
	return s;
}
static bool in(char c, const String& d)
{
	for (SizeType i = 0; i < d.size(); ++i)
		if (d[i] == c)
			return true;
	return false;
}
PSX_CASE(split)
{
	SizeType n = psx_choose("n", PSX_T(6, 8));
	SizeType k = psx_choose("delims", 3);
	String s = bytes(n, "c"), d = bytes(k, "d");
	Vector<String>::Type t;
	SizeType before = psx_choose("before", 2); // tokens are appended
	if (before)
		t.push_back("kept");
	split(t, s, d);
	Vector<String>::Type e;
	if (before)
		e.push_back("kept");
	String cur;
	for (SizeType i = 0; i < n; ++i) {
		if (in(s[i], d)) {
			if (!cur.empty())
				e.push_back(cur);
			cur = "";
		} else
			cur += s[i];
	}
	if (!cur.empty())
		e.push_back(cur);
	psx_assert(t.size() == e.size(), "number of pieces");
	for (SizeType i = 0; i < t.size() && i < e.size(); ++i) {
		psx_assert(t[i].size() == e[i].size(), "length of the piece");
		psx_assert(t[i] == e[i], "the piece");
		psx_observe_str(t[i]);
	}
}
PSX_CASE(split_default)
{
	SizeType n = psx_choose("n", PSX_T(5, 7));
	String s = bytes(n, "c");
	Vector<String>::Type t, e;
	split(t, s);
	split(e, s, " ");
	psx_assert(t == e, "a blank is the default delimiter");
}
PSX_CASE(replaceAll)
{
	SizeType n = psx_choose("n", PSX_T(5, 7));
	SizeType f = psx_choose("from", 3), g = psx_choose("to", 3);
	String s = bytes(n, "c"), from = bytes(f, "f"), to = bytes(g, "t");
	String r;
	for (SizeType i = 0; i < n;) {
		bool hit = f > 0 && i + f <= n;
		for (SizeType k = 0; hit && k < f; ++k)
			hit = s[i + k] == from[k];
		if (hit) {
			r += to;
			i += f;
		} else
			r += s[i++];
	}
	replaceAll(s, from, to);
	psx_assert(s.size() == r.size(), "length after replacement");
	psx_assert(s == r, "text after replacement");
	psx_observe_str(s);
}
PSX_CASE(basename)
{
	SizeType n = psx_choose("n", PSX_T(6, 8));
	String s = bytes(n, "c");
	String b = PsimagLite::basename(s);
	SizeType start = 0;
	for (SizeType i = 0; i < n; ++i)
		if (s[i] == '/')
			start = i + 1;
	psx_assert(b.size() == n - start, "length of what follows the last slash");
	psx_assert(b == s.substr(start), "what follows the last slash");
}
PSX_CASE(recognisers)
{
	SizeType n = psx_choose("n", PSX_T(6, 7));
	String s = bytes(n, "c");
	bool all = n > 0, fl = true, dig = false;
	for (SizeType i = 0; i < n; ++i) {
		bool d = s[i] >= '0' && s[i] <= '9';
		if (!d)
			all = false;
		if (d)
			dig = true;
		else if (s[i] != '-' && s[i] != '+' && s[i] != 'e' && s[i] != 'E' && s[i] != '.')
			fl = false;
	}
	psx_assert(isAnInteger(s) == all, "integer: one or more digits and nothing else");
	psx_assert(isAfloat(s) == (fl && dig), "floating literal characters with a digit");
}
// [sign] digits, value in v; false if the text is something else
static bool intText(const String& s, long& v)
{
	SizeType i = 0;
	bool neg = false;
	if (i < s.size() && (s[i] == '-' || s[i] == '+'))
		neg = s[i++] == '-';
	if (i == s.size())
		return false;
	v = 0;
	for (; i < s.size(); ++i) {
		if (s[i] < '0' || s[i] > '9')
			return false;
		v = v * 10 + (s[i] - '0');
	}
	if (neg)
		v = -v;
	return true;
}
static void checkAtoi(const String& s)
{
	long v = 0;
	bool good = intText(s, v);
	bool ok = false;
	int r = 0;
	try {
		r = PsimagLite::atoi(s);
		ok = true;
	} catch (std::exception&) {
	}
	good = good && v >= INT_MIN && v <= INT_MAX;
	psx_assert(ok == good, "an integer literal is accepted, anything else is an error");
	if (ok)
		psx_assert(r == v, "value of the text");
}
PSX_CASE(atoi)
{
	checkAtoi(bytes(psx_choose("n", PSX_T(5, 7)), "c"));
}
PSX_CASE(atoi_long)
{
	SizeType n = 8 + psx_choose("n", 4);
	String s = psx_choose("neg", 2) ? "-" : "";
	for (SizeType i = 0; i < n; ++i)
		s += (char)psx_range("digit", '0', '9');
	checkAtoi(s);
}
// a decimal floating literal: [sign] digits[.digits] | .digits, optional exponent
static bool floatText(const String& s)
{
	SizeType i = 0;
	if (i < s.size() && (s[i] == '-' || s[i] == '+'))
		++i;
	SizeType d = 0;
	for (; i < s.size() && isdigit(s[i]); ++i)
		++d;
	if (i < s.size() && s[i] == '.')
		for (++i; i < s.size() && isdigit(s[i]); ++i)
			++d;
	if (!d)
		return false;
	if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
		++i;
		if (i < s.size() && (s[i] == '-' || s[i] == '+'))
			++i;
		SizeType k = 0;
		for (; i < s.size() && isdigit(s[i]); ++i)
			++k;
		if (!k)
			return false;
	}
	return i == s.size();
}
PSX_CASE(atof_accepts)
{
	String s = psx_enum_string("c", psx_choose("n", PSX_T(5, 6)), "07.+-eE x");
	bool ok = false;
	double r = 0;
	try {
		r = PsimagLite::atof(s);
		ok = true;
	} catch (std::exception&) {
	}
	psx_assert(ok == floatText(s), "a floating literal is accepted, anything else is an error");
	if (ok)
		psx_assert(r == ::strtod(s.c_str(), 0), "value of the text");
}
PSX_CASE(atof_value)
{
	SizeType a = 1 + psx_choose("int digits", 3), b = psx_choose("frac digits", 3);
	SizeType sg = psx_choose("sign", 3);
	String s = sg == 0 ? "" : sg == 1 ? "-" : "+";
	long n = 0;
	for (SizeType i = 0; i < a + b; ++i) {
		if (i == a)
			s += '.';
		s += (char)psx_range("digit", '0', '9');
		n = n * 10 + (s[s.size() - 1] - '0');
	}
	double scale = b == 0 ? 1 : b == 1 ? 10 : 100;
	double r = PsimagLite::atof(s);
	double e = (double)(sg == 1 ? -n : n);
	if (b)
		e = e / scale;
	psx_assert(r == e, "value of the text");
}

// longer texts: two characters arbitrary
PSX_CASE(large)
{
	static const SizeType lengths[] = { 17, 33, 70, 260 };
	SizeType n = lengths[psx_choose("n", 4)];
	String s(n, ' ');
	for (SizeType i = 0; i < n; ++i)
		s[i] = "ab/c,dd e"[(i * 7 + i / 9) % 9];
	s[n / 2] = (char)psx_u8("c");
	s[n - 1] = (char)psx_u8("c");
	String delims = psx_choose("delims", 2) ? "," : ", e";
	Vector<String>::Type t, e;
	split(t, s, delims);
	String cur;
	for (SizeType i = 0; i < n; ++i) {
		if (in(s[i], delims)) {
			if (!cur.empty())
				e.push_back(cur);
			cur = "";
		} else
			cur += s[i];
	}
	if (!cur.empty())
		e.push_back(cur);
	psx_assert(t == e, "the pieces");
	SizeType start = 0;
	for (SizeType i = 0; i < n; ++i)
		if (s[i] == '/')
			start = i + 1;
	psx_assert(PsimagLite::basename(s) == s.substr(start), "what follows the last slash");
	String r, to = psx_choose("to", 2) ? "ddd" : "";
	for (SizeType i = 0; i < n;)
		if (i + 1 < n && s[i] == 'd' && s[i + 1] == 'd') {
			r += to;
			i += 2;
		} else {
			r += s[i++];
		}
	replaceAll(s, "dd", to);
	psx_assert(s == r, "text after replacement");
	String num(n, '7');
	num[n - 2] = (char)psx_u8("digit");
	psx_assert(isAnInteger(num) == (num[n - 2] >= '0' && num[n - 2] <= '9'), "integer: one or more digits and nothing else");
}
