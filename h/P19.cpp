// P19: the typed input language.
//@ src: PsimagLite.cpp Ainur/AinurSpirit.cpp Ainur/AinurConvert.cpp
//@ bounds: every script of up to 5 (thorough 6) characters over "ab_1=; #" and line ends against a reference grammar; scripts of up to 3 (thorough 4) declarations and assignments to two names in every order; white space of every kind and comments at every boundary between tokens; values of 1..3 symbolic digits; vectors of up to 3 (thorough 4) entries, matrices of up to 2x2 (thorough 3x3); pairs of names of up to 258 letters that differ in one letter or by one more; every byte at every position of a script; scripts of 15 and 40 declarations with vectors of up to 76 and matrices of up to 39x5 entries and texts of up to 70 characters, fixed but for one digit
//@ case large max_instr=60000000
//@ assume: a comment ends at the end of its line and is not inside a value; white space inside a value is only considered around it and next to brackets and commas
#include "psx.h"
#include "Ainur/Ainur.h"
#include <complex>
#include <cstring>
#include <map>
#include <sstream>
using namespace PsimagLite;
typedef unsigned long Sz;
typedef std::complex<double> Cx;

template <typename T>
static bool reads(const Ainur& a, T& t, const std::string& name)
{
	try {
		a.readValue(t, name);
	} catch (std::exception&) {
		return false;
	}
	return true;
}

// ---------------------------------------------------------------- reference grammar
struct Var {
	std::string type, value;
};
typedef std::map<std::string, Var> Vars;
static bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static Sz skip(const std::string& s, Sz p)
{
	while (p < s.size()) {
		if (space(s[p])) {
			++p;
		} else if (s[p] == '#') {
			Sz q = s.find_first_of("\n\r", p);
			if (q == std::string::npos)
				break;
			p = q;
		} else {
			break;
		}
	}
	return p;
}
static bool word(const std::string& s, Sz& p, std::string& w)
{
	Sz q = p;
	while (q < s.size() && (letter(s[q]) || s[q] == '.' || s[q] == '!'))
		++q;
	w = s.substr(p, q - p);
	if (q == p || q == s.size() || !(space(s[q]) || s[q] == '#'))
		return false; // the type is a word of its own
	p = q;
	return true;
}
static bool name(const std::string& s, Sz& p, std::string& w)
{
	Sz q = p;
	while (q < s.size() && s[q] == '_')
		++q;
	if (q == s.size() || !letter(s[q]))
		return false;
	while (q < s.size() && (letter(s[q]) || s[q] == '_' || s[q] == ':' || (s[q] >= '0' && s[q] <= '9')))
		++q;
	w = s.substr(p, q - p);
	p = q;
	return true;
}
static bool value(const std::string& s, Sz& p, std::string& w)
{
	p = skip(s, p);
	if (p == s.size() || s[p] != '=')
		return false;
	p = skip(s, p + 1);
	Sz q = p;
	while (q < s.size() && s[q] != ';')
		++q;
	if (q == p)
		return false;
	w = s.substr(p, q - p);
	while (!w.empty() && space(w.back()))
		w.pop_back();
	p = q;
	return true;
}
enum { NOT, GOOD, BAD };
static int statement(const std::string& s, Sz& p, Vars& vars)
{
	Sz q = skip(s, p), after;
	std::string type, key, val;
	bool declares = false, gives = false;
	Sz r = q;
	if (word(s, r, type)) {
		r = skip(s, r);
		if (name(s, r, key)) {
			declares = true;
			after = r;
			if (value(s, r, val)) {
				gives = true;
				after = r;
			}
		}
	}
	if (!declares) {
		r = q;
		if (!name(s, r, key) || !value(s, r, val))
			return NOT;
		gives = true;
		after = r;
	}
	p = after;
	if ((vars.count(key) > 0) == declares)
		return BAD;
	Var& v = vars[key];
	if (declares)
		v.type = type;
	if (gives)
		v.value = val;
	return GOOD;
}
static bool script(const std::string& s, Vars& vars)
{
	Sz p = 0;
	int k = statement(s, p, vars);
	while (k == GOOD) {
		Sz q = skip(s, p);
		if (q == s.size() || s[q] != ';')
			break;
		++q;
		k = statement(s, q, vars);
		if (k != NOT)
			p = q;
	}
	if (k == BAD)
		return false;
	p = skip(s, p);
	if (p < s.size() && s[p] == ';')
		++p;
	return skip(s, p) == s.size();
}
static void agree(const std::string& text)
{
	Vars vars;
	bool good = script(text, vars), ok = true;
	try {
		Ainur a(text);
		if (good) {
			for (auto& x : vars) {
				std::string t;
				bool r = reads(a, t, x.first);
				psx_assert(r == !x.second.value.empty(), "a name is read if and only if it was given a value");
				if (r)
					psx_assert(t == x.second.value, "the value given");
			}
			std::string t;
			psx_assert(!reads(a, t, "nosuch"), "an undeclared name is not read");
		}
	} catch (std::exception&) {
		ok = false;
	}
	psx_assert(ok == good, "a script is an error if and only if it is malformed, re-declares or assigns to what is not declared");
}
PSX_CASE(texts) { agree(psx_enum_string("c", psx_choose("length", PSX_T(5, 6) + 1), "ab_1=; #\n")); }
// a few characters anywhere in a longer script
PSX_CASE(edits)
{
	std::string s = "real a=1;\ninteger b_c;\n#x\nb_c = 2;\n";
	Sz n = s.size(), at = psx_choose("at", n), del = psx_choose("delete", PSX_T(2, 4));
	std::string in = psx_enum_string("c", psx_choose("insert", 3), "a_1=; #\n");
	s = s.substr(0, at) + in + (at + del < n ? s.substr(at + del) : "");
	Sz hash = s.rfind('#'), end = s.rfind('\n');
	if (hash != std::string::npos && (end == std::string::npos || end < hash))
		psx_stop(); // a comment that does not end
	agree(s);
}
// any byte anywhere
PSX_CASE(bytes)
{
	std::string s = "string a = xx;\n";
	Sz at = psx_choose("at", s.size());
	unsigned char c = psx_u8("byte");
	bool allowed = c == 9 || c == 10 || c == 13 || (c >= 32 && c <= 126 && c != 96);
	s[at] = c;
	bool ok = true;
	std::string t;
	try {
		Ainur a(s);
		if (at == 11 && c > 32 && c != ';') {
			a.readValue(t, "a");
			psx_assert(t[0] == (char)c && t[1] == 'x' && t.size() == 2, "value of a string");
		}
	} catch (std::exception&) {
		ok = false;
	}
	if (!allowed)
		psx_assert(!ok, "a character that is not allowed is an error");
	else if (at == 11 && c > 32 && c != ';' && c != '#' && c != '\\') // a backslash starts a macro
		psx_assert(ok, "a value of allowed characters is read");
	psx_observe(ok);
}

// ---------------------------------------------------------------- statements
PSX_CASE(statements)
{
	static const char* names[] = { "a", "b_1" };
	std::string s;
	std::map<std::string, int> declared, val;
	bool good = true;
	Sz n = 1 + psx_choose("statements", PSX_T(3, 4));
	for (Sz i = 0; i < n; ++i) {
		std::string x = names[psx_choose("name", 2)];
		Sz kind = psx_choose("kind", 3); // declare, declare with value, assign
		if ((declared.count(x) > 0) == (kind < 2))
			good = false;
		s += kind < 2 ? "integer " + x : x;
		declared[x] = 1;
		if (kind > 0) {
			char d = psx_range("digit", '0', '9');
			val[x] = d - '0';
			s += "=";
			s += d;
		}
		s += ";\n";
	}
	bool ok = true;
	try {
		Ainur a(s);
		if (good) {
			for (Sz k = 0; k < 2; ++k) {
				int y = -1;
				bool r = reads(a, y, names[k]);
				psx_assert(r == (val.count(names[k]) > 0), "a name is read if and only if it was given a value");
				if (r)
					psx_assert(y == val[names[k]], "the last value given");
			}
		}
	} catch (std::exception&) {
		ok = false;
	}
	psx_assert(ok == good, "undeclared names and re-declarations are errors");
}
static std::string gap(bool needed)
{
	static const char* g[] = { " ", "\n", "\t \r\n", " #b = 1;\n", "#\n#b\n\n", "" };
	return g[psx_choose("gap", needed ? 5 : 6)];
}
PSX_CASE(white_space)
{
	Sz at = psx_choose("at", 11), p = 0;
	auto w = [&](bool needed) {
		std::string r = p == at || p == at + 1 ? gap(needed) : needed ? " " : "";
		++p;
		return r;
	};
	char d = psx_range("digit", '0', '9');
	std::string s = w(false) + "int";
	s += w(true) + "x:y1";
	s += w(false) + ";";
	s += w(false) + "x:y1";
	s += w(false) + "=";
	s += w(false) + d;
	Sz q = s.size();
	std::string g = w(false);
	if (g.find('#') != std::string::npos)
		psx_stop();
	s += g;
	s += ";";
	s += w(false) + "real.big!";
	s += w(true) + "_z";
	s += w(false) + "=";
	s += w(false) + "7;";
	s += w(false);
	int x = -1, z = -1;
	std::string t;
	Ainur a(s);
	a.readValue(x, "x:y1");
	a.readValue(t, "x:y1");
	a.readValue(z, "_z");
	psx_assert(x == d - '0' && t.size() == 1 && t[0] == d && z == 7, "values whatever the white space");
}

// ---------------------------------------------------------------- values
static std::string digits(Sz n, int& v)
{
	std::string s;
	v = 0;
	for (Sz i = 0; i < n; ++i) {
		char c = psx_range("digit", '0', '9');
		s += c;
		v = 10 * v + (c - '0');
	}
	return s;
}
PSX_CASE(scalars)
{
	int v;
	bool minus = psx_choose("minus", 2);
	std::string s = digits(1 + psx_choose("digits", PSX_T(2, 4)), v);
	if (minus) {
		s = "-" + s;
		v = -v;
	}
	std::string frac = psx_choose("fraction", 2) ? "." : "";
	if (!frac.empty()) {
		int f;
		frac += digits(1, f);
	}
	s += frac;
	Ainur a("real x = " + s + ";\n");
	int i = 77777;
	long l = 77777;
	double d = 77777;
	std::string t;
	psx_assert(reads(a, i, "x") == frac.empty(), "an integer is read, a fraction is not");
	psx_assert(reads(a, l, "x") == frac.empty(), "an integer is read, a fraction is not");
	if (frac.empty())
		psx_assert(i == v && l == v, "value of an integer");
	Sz u = 77777;
	psx_assert(reads(a, u, "x") == (frac.empty() && v >= 0), "an unsigned integer is read if it is not negative");
	if (frac.empty() && v >= 0)
		psx_assert(u == (Sz)v, "value of an unsigned integer");
	psx_assert(reads(a, d, "x"), "a number is read");
	double e = strtod(s.c_str(), nullptr);
	psx_assert(memcmp(&d, &e, 8) == 0, "value of a number");
	psx_assert(reads(a, t, "x") && t == s, "text of a value");
	psx_observe(i);
}
PSX_CASE(malformed)
{
	std::string s = psx_enum_string("c", 1 + psx_choose("length", PSX_T(3, 4)), "1-.+ea[");
	// reference: optional sign, digits with at most one point, optional exponent
	Sz p = 0, n = s.size(), dig = 0;
	bool isInt = true, good = true;
	if (s[p] == '-' || s[p] == '+')
		++p;
	while (p < n && s[p] == '1')
		++p, ++dig;
	if (p < n && s[p] == '.') {
		isInt = false;
		++p;
		while (p < n && s[p] == '1')
			++p, ++dig;
	}
	good = dig > 0;
	if (p < n && s[p] == 'e') {
		isInt = false;
		++p;
		if (p < n && (s[p] == '-' || s[p] == '+'))
			++p;
		Sz q = p;
		while (p < n && s[p] == '1')
			++p;
		good = good && p > q;
	}
	good = good && p == n;
	Ainur a("real x=" + s + ";\nvector v=[" + s + "];\nvector w=[1," + s + ",1];\nmatrix m=[[" + s + "]];\n");
	int i;
	double d;
	psx_assert(reads(a, i, "x") == (good && isInt), "an integer is read if and only if it is one");
	psx_assert(reads(a, d, "x") == good, "a number is read if and only if it is one");
	std::vector<int> v;
	psx_assert(reads(a, v, "v") == (good && isInt), "a vector of integers");
	std::vector<double> w;
	psx_assert(reads(a, w, "v") == good, "a vector of numbers");
	psx_assert(reads(a, w, "w") == good, "a vector of numbers");
	Matrix<double> m;
	psx_assert(reads(a, m, "m") == good, "a matrix of numbers");
}
PSX_CASE(strings)
{
	Sz n = psx_choose("length", PSX_T(4, 5));
	std::string s, q = psx_choose("quoted", 2) ? "\"" : "";
	for (Sz i = 0; i < n; ++i) {
		char c = psx_range("char", 32, 126);
		psx_assume(c != ';' && c != '"' && c != '`' && c != '\\' && c != '(');
		if (q.empty())
			psx_assume(c != ' ' && c != '#');
		s += c;
	}
	if (n == 0 && q.empty())
		psx_stop();
	Ainur a("string x = " + q + s + q + (psx_choose("blank", 2) ? " " : "") + ";\n");
	std::string t;
	a.readValue(t, "x");
	psx_assert(t == s, "value of a string");
}
static std::string blank() { return psx_choose("blank", 2) ? " " : ""; }
template <typename T>
static void vectors(bool ints)
{
	Sz n = 1 + psx_choose("entries", PSX_T(3, 4));
	std::string s = "[", want[4];
	for (Sz i = 0; i < n; ++i) {
		int v;
		want[i] = psx_choose("minus", 2) ? "-" : "";
		want[i] += digits(1, v);
		if (!ints)
			want[i] += "." + digits(1, v);
		s += (i ? "," : "") + (i == 1 ? blank() : "") + want[i];
	}
	s += blank() + "]";
	Ainur a("vector.real v = " + s + ";\n");
	std::vector<T> v(psx_choose("size before", 3));
	a.readValue(v, "v");
	psx_assert(v.size() == n, "one entry of the vector for each written");
	for (Sz i = 0; i < n; ++i) {
		T e = ints ? T(atoi(want[i].c_str())) : T(strtod(want[i].c_str(), nullptr));
		psx_assert(memcmp(&v[i], &e, sizeof(T)) == 0, "entry of a vector");
	}
}
PSX_CASE(vector_double) { vectors<double>(false); }
PSX_CASE(vector_int) { vectors<int>(true); }
PSX_CASE(vector_size)
{
	int x, y;
	std::string a1 = digits(2, x), a2 = digits(1, y);
	if (psx_choose("minus", 2)) {
		a2 = "-" + a2;
		y = -y;
	}
	Ainur a("vector v=[" + a1 + "," + a2 + "];");
	std::vector<Sz> v;
	std::vector<std::string> t;
	bool ok = reads(a, v, "v");
	a.readValue(t, "v");
	psx_assert(ok == (y >= 0), "a negative size is an error");
	if (ok)
		psx_assert(v.size() == 2 && v[0] == (Sz)x && v[1] == (Sz)y, "vector of sizes");
	psx_assert(t.size() == 2 && t[0] == a1 && t[1] == a2, "vector of texts");
}
PSX_CASE(ellipsis)
{
	int x;
	std::string d = digits(1, x);
	Sz before = psx_choose("size before", 4), form = psx_choose("form", 3), k = psx_choose("count", 13);
	std::string s = "[" + d + "," + blank() + "...";
	if (form == 1)
		s += "x" + ttos(k);
	if (form == 2)
		s += ",1"; // not an ellipsis
	Ainur a("vector v = " + s + "];\n");
	std::vector<int> v(before, -5);
	bool good = form == 0 ? before > 0 : form == 1 ? k > 0 : false;
	psx_assert(reads(a, v, "v") == good, "an ellipsis needs a size");
	if (!good)
		return;
	psx_assert(v.size() == (form == 0 ? before : k), "size from an ellipsis");
	for (int y : v)
		psx_assert(y == x, "an ellipsis repeats the value");
}
static std::string number(double& v)
{
	int x;
	std::string s = psx_choose("minus", 2) ? "-" : "";
	s += digits(1, x);
	v = strtod(s.c_str(), nullptr);
	return s;
}
static std::string complexNumber(Cx& v, Sz form)
{
	double a = 0, b = 0;
	std::string s;
	if (form == 0) {
		s = number(a);
	} else if (form == 1) {
		s = number(a);
		s += "i";
		s += number(b);
	} else if (form == 2) {
		s = "i";
		b = 1;
	} else if (form == 3) {
		s = "i";
		s += number(b);
	} else {
		s = "-i";
		b = -1;
	}
	v = Cx(a, b);
	return s;
}
template <typename T>
static bool same(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0 || a == b; }
static std::string entry(double& v) { return number(v); }
static std::string entry(Cx& v) { return complexNumber(v, psx_choose("form", 5)); }
template <typename T>
static void matrices(Sz rows, Sz cols)
{
	Sz ragged = psx_choose("ragged", 2) ? 1 + psx_choose("row", rows) : 0;
	if (ragged == 1 && rows == 1)
		ragged = 0;
	std::string s = "[";
	Matrix<T> want(rows, cols);
	for (Sz i = 0; i < rows; ++i) {
		s += i ? ",\n[" : "[";
		for (Sz j = 0; j < cols; ++j) {
			T x = 0;
			std::string e = i + j ? number(reinterpret_cast<double&>(x)) : entry(x);
			s += (j ? ", " : "") + e;
			want(i, j) = x;
		}
		if (ragged == i + 1)
			s += ",1";
		s += "]";
	}
	s += "]";
	Ainur a("matrix m = " + s + ";\n");
	Matrix<T> m;
	psx_assert(reads(a, m, "m") == (ragged == 0), "rows of unequal length are an error");
	if (ragged)
		return;
	psx_assert(m.rows() == rows && m.cols() == cols, "size of a matrix");
	for (Sz i = 0; i < rows; ++i)
		for (Sz j = 0; j < cols; ++j)
			psx_assert(same(m(i, j), want(i, j)), "entry of a matrix");
}
PSX_CASE(matrix_double)
{
	Sz r = 1 + psx_choose("rows", PSX_T(2, 3)), c = 1 + psx_choose("cols", 2);
	matrices<double>(r, c);
}
PSX_CASE(matrix_complex)
{
	Sz r = 1 + psx_choose("rows", 2), c = 1 + psx_choose("cols", 2);
	matrices<Cx>(r, c);
}
PSX_CASE(vector_complex)
{
	Sz n = 1 + psx_choose("entries", 2);
	std::string s = "[";
	Cx want[2];
	for (Sz i = 0; i < n; ++i)
		s += (i ? ", " : "") + complexNumber(want[i], psx_choose("form", 5));
	s += "]";
	Ainur a("vector m = " + s + ";\n");
	std::vector<Cx> v;
	a.readValue(v, "m");
	psx_assert(v.size() == n, "size of a vector");
	for (Sz i = 0; i < n; ++i)
		psx_assert(same(v[i], want[i]), "entry of a vector");
}
// a key whose type ends in ! is reported until it is read
PSX_CASE(unused)
{
	Sz flags = psx_choose("flagged", 8), read = psx_choose("read", 8);
	static const char* names[] = { "a", "b", "c" };
	std::string s;
	for (Sz i = 0; i < 3; ++i)
		s += std::string("integer") + (flags >> i & 1 ? "!" : "") + " " + names[i] + "=1;\n";
	Ainur a(s);
	for (Sz i = 0; i < 3; ++i) {
		int x;
		if (read >> i & 1)
			a.readValue(x, names[i]);
	}
	std::string want;
	std::map<std::string, std::string> m;
	a.setMap(m);
	for (Sz i = 0; i < 3; ++i) {
		bool un = (flags >> i & 1) && !(read >> i & 1);
		if (un)
			want += std::string(names[i]) + "\n";
		psx_assert(m.count(names[i]) == !un, "the values used");
	}
	if (!want.empty())
		want = "Unused keys:\n" + want;
	std::ostringstream os;
	a.printUnused(os);
	psx_assert(os.str() == want, "keys not used");
}

// long scripts: many declarations, long names and texts, vectors and matrices of many entries
PSX_CASE(large)
{
	Sz n = psx_choose("declarations", 2) ? 15 : 40, at = psx_choose("symbolic one", 3) * (n / 2), first = psx_choose("first", 2);
	at = at < n ? at : n - 1;
	std::string text = first ? "# a script\n" : "";
	std::vector<std::string> names, values;
	for (Sz i = 0; i < n; ++i) {
		static const char* types[] = { "real", "string", "vector.real", "matrix", "require integer" };
		std::string x = "name" + std::string(i % 5, 'x') + ":" + std::to_string(i), v;
		Sz kind = i % 4;
		int d;
		if (kind == 0 || i == at) {
			v = i == at ? digits(1, d) : std::to_string(1000 * i + 7) + ".25";
			kind = 0;
		} else if (kind == 1) {
			v = "\"" + std::string(30 + i, 'a' + (char)(i % 26)) + " b = c\"";
		} else if (kind == 2) {
			v = "[";
			for (Sz j = 0; j < 2 * i; ++j)
				v += (j ? ", " : "") + std::to_string(j * j) + "." + std::to_string(j % 10);
			v += "]";
		} else {
			v = "[";
			for (Sz j = 0; j < i; ++j) {
				v += j ? ",[" : "[";
				for (Sz k = 0; k < 5; ++k)
					v += (k ? "," : "") + std::to_string(i * j + k);
				v += "]";
			}
			v += "]";
		}
		text += std::string(types[kind]) + " " + x;
		if (i % 3 == 0)
			text += ";" + std::string(i % 2 ? "\n" : " ") + x;
		text += " = " + v + ";\n";
		if (i % 7 == 3)
			text += "# remark = 3;\n";
		names.push_back(x);
		values.push_back(v);
	}
	Ainur a(text);
	for (Sz i = 0; i < n; ++i) {
		std::string s;
		Sz kind = i == at ? 0 : i % 4;
		if (kind == 0) {
			double d = 0;
			psx_assert(reads(a, d, names[i]), "a number is read");
			double want = i == at ? (double)(values[i][0] - '0') : 1000 * i + 7.25;
			psx_assert(d == want, "value of a number");
		} else if (kind == 1) {
			psx_assert(reads(a, s, names[i]), "a text is read");
			psx_assert(s == values[i].substr(1, values[i].size() - 2), "value of a string");
		} else if (kind == 2) {
			std::vector<double> v;
			psx_assert(reads(a, v, names[i]), "a vector is read");
			psx_assert(v.size() == 2 * i, "one entry of the vector for each written");
			for (Sz j = 0; j < v.size(); ++j)
				psx_assert(v[j] == strtod((std::to_string(j * j) + "." + std::to_string(j % 10)).c_str(), nullptr), "entry of a vector");
		} else {
			Matrix<double> m;
			psx_assert(reads(a, m, names[i]), "a matrix is read");
			psx_assert(m.rows() == i && m.cols() == 5, "shape of the matrix");
			for (Sz j = 0; j < m.rows(); ++j)
				for (Sz k = 0; k < 5; ++k)
					psx_assert(m(j, k) == (double)(i * j + k), "entry of a matrix");
		}
	}
}

// long names that differ in one letter, or by one more
PSX_CASE(long_names)
{
	static const Sz lens[] = { 2, 9, 17, 33, 65, 129, 257 };
	Sz n = lens[psx_choose("length", 7)], where = psx_choose("where", 5), order = psx_choose("order", 2);
	std::string a(n, 'x');
	for (Sz i = 0; i < n; ++i)
		a[i] = 'a' + (i * 7) % 26;
	std::string b = a;
	if (where == 4)
		b += 'q';
	else {
		Sz p = where == 0 ? 0 : where == 1 ? n / 2 : where == 2 ? n - 1 : n / 3;
		char c = psx_range("letter", 'a', 'z');
		psx_assume(c != a[p]);
		b[p] = c;
	}
	char d = psx_range("digit", '1', '9'), e = psx_range("digit", '1', '9');
	std::string first = "integer " + a + " = " + d + ";\n", second = "integer " + b + ";\n" + b + " = " + e + ";\n";
	int x = 0, y = 0, z = 0;
	bool unknown = false;
	Ainur ainur(order ? first + second : second + first);
	ainur.readValue(x, a);
	ainur.readValue(y, b);
	try {
		ainur.readValue(z, b + "z");
	} catch (std::exception&) {
		unknown = true;
	}
	psx_assert(x == d - '0' && y == e - '0' && unknown, "each name has its own value, however long");
}
