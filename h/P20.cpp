// P20: macros of the typed input language.
//@ src: PsimagLite.cpp Ainur/AinurSpirit.cpp Ainur/AinurConvert.cpp
//@ bounds: values of up to 4 (thorough 5) pieces, each a use of one of three names, an undefined name, or text of one character, quoted or not, with the definitions before or after; every value of up to 5 (thorough 6) characters over "\\ab_ 1x" in front of a definition; chains of up to 4 macros; tables of up to 3 (thorough 4) lines with symbolic digits, blank lines, two or three columns, both separators, every pair of columns up to 3; symbolic arguments; every pair of 12 arguments from 1e-300 to 1e300, some equal to all but the last digits, with every one asked for; pairs of names of up to 258 letters that differ in one letter or by one more; values with six and nine uses and tables of 12 and 40 lines with one symbolic character
//@ case large max_instr=60000000
//@ case large_table max_instr=60000000
//@ assume: names declared with ! are left alone
#include "psx.h"
#include "Ainur/Ainur.h"
#include <cstring>
using namespace PsimagLite;
typedef unsigned long Sz;
template <typename T>
static bool reads(const Ainur& a, T& t, const std::string& name)
{
	try {
		a.readValue(t, name);
	} catch (std::exception&) {
		return false;
	}
	return true;
}
static std::string unquote(std::string s)
{
	if (!s.empty() && s[0] == '"')
		s = s.substr(1);
	if (!s.empty() && s.back() == '"')
		s.pop_back();
	return s;
}
static bool nameChar(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }
// expands every use of the given names until none is left
static bool expand(std::string& s, const std::string* names, const std::string* values, Sz n)
{
	for (int round = 0; round < 10; ++round) {
		Sz p = s.find('\\');
		if (p == std::string::npos)
			return true;
		Sz q = p + 1;
		while (q < s.size() && nameChar(s[q]))
			++q;
		std::string w = s.substr(p + 1, q - p - 1);
		Sz k = 0;
		while (k < n && names[k] != w)
			++k;
		if (k == n)
			return false;
		s = s.substr(0, p) + unquote(values[k]) + s.substr(q);
	}
	return false;
}
static void check(const std::string& text, const std::string& s, const std::string* names, const std::string* values, Sz n)
{
	std::string want = s, got;
	bool good = expand(want, names, values, n), ok = true;
	want = unquote(want);
	try {
		Ainur a(text);
		a.readValue(got, "s");
		for (Sz i = 0; i < n; ++i) {
			std::string t, u = values[i];
			bool e = expand(u, names, values, n);
			if (e) {
				psx_assert(reads(a, t, names[i]), "a macro can itself be read");
				psx_assert(t == unquote(u), "a macro can itself be read");
			}
		}
	} catch (std::exception&) {
		ok = false;
	}
	psx_assert(ok == good, "an undefined macro is an error");
	if (good)
		psx_assert(got == want, "every use is replaced by the definition, all other text is left as it is");
}
static const std::string g_names[3] = { "a", "ab", "x_1" };
static const std::string g_values[3] = { "2", "\"q r\"", "(z)" };
PSX_CASE(pieces)
{
	Sz n = 1 + psx_choose("pieces", PSX_T(4, 5));
	bool quoted = psx_choose("quoted", 2), after = psx_choose("after", 2);
	std::string s;
	for (Sz i = 0; i < n; ++i) {
		Sz k = psx_choose("piece", 5);
		if (k < 3) {
			s += "\\" + g_names[k];
		} else if (k == 3) {
			s += "\\b";
		} else {
			static const char t[] = "+, 3a";
			s += t[psx_choose("text", 5)];
		}
	}
	if (quoted)
		s = "\"" + s + "\"";
	else if (s[0] == ' ' || s.back() == ' ')
		psx_stop();
	std::string text = "string s=" + s + ";\n", defs;
	for (Sz i = 0; i < 3; ++i)
		defs += "string " + g_names[i] + " = " + g_values[i] + ";\n";
	check(after ? text + defs : defs + text, s, g_names, g_values, 3);
}
PSX_CASE(texts)
{
	std::string s = psx_enum_string("c", 1 + psx_choose("length", PSX_T(5, 6)), "\\ab_ 1x");
	if (s[0] == ' ' || s.back() == ' ')
		psx_stop();
	std::string text = "string s = " + s + ";\n";
	for (Sz i = 0; i < 3; ++i)
		text += "string " + g_names[i] + " = " + g_values[i] + ";\n";
	check(text, s, g_names, g_values, 3);
}
// symbolic text around a use
PSX_CASE(around)
{
	Sz n = psx_choose("before", 3), m = psx_choose("after", 3);
	std::string s, d;
	auto putc1 = [](std::string& t, bool first) {
		char c = psx_range("char", 33, 126);
		psx_assume(c != ';' && c != '"' && c != '`' && c != '\\' && c != '!' && c != '#');
		psx_assume(c != '(' && c != ')');
		if (first)
			psx_assume(!nameChar(c)); // ends the name
		t += c;
	};
	for (Sz i = 0; i < n; ++i)
		putc1(s, false);
	std::string front = s, back;
	for (Sz i = 0; i < m; ++i)
		putc1(back, i == 0);
	for (Sz i = 0; i < 2; ++i)
		putc1(d, false);
	Ainur a("string mac=" + d + ";\nstring s=" + front + "\\mac" + back + ";\n");
	std::string t;
	a.readValue(t, "s");
	psx_assert(t == front + d + back, "every use is replaced by the definition, all other text is left as it is");
}
// macros in macros, in every order of definition
PSX_CASE(chains)
{
	Sz n = 2 + psx_choose("macros", 3);
	std::string names[4], values[4], text;
	for (Sz i = 0; i < n; ++i) {
		names[i] = std::string(1, 'a' + i);
		values[i] = i + 1 < n ? (psx_choose("tail", 2) ? "1\\" + std::string(1, 'b' + i) : "\\" + std::string(1, 'b' + i) + "+") : "7";
	}
	bool rev = psx_choose("reversed", 2);
	for (Sz i = 0; i < n; ++i) {
		Sz k = rev ? n - 1 - i : i;
		text += "string " + names[k] + "=" + values[k] + ";";
	}
	Sz mid = psx_choose("position", 2);
	std::string s = "\\a\\b";
	text = mid ? text + "string s = " + s + ";" : "string s = " + s + ";" + text;
	check(text, s, names, values, n);
}
// numbers, vectors and matrices written with macros
PSX_CASE(numbers)
{
	char d = psx_range("digit", '0', '9'), e = psx_range("digit", '0', '9');
	std::string t = std::string("real x = ") + d + ";\nreal y = -" + e + ".5;\n";
	Ainur a(t + "real z = \\x;\nvector v = [\\x, \\y,\\x\\x ];\nmatrix m = [[\\y, \\x], [1, \\z]];\nvector w = [\\y,...x3];\n");
	double x = d - '0', y = -(e - '0' + 0.5), z;
	int k;
	std::vector<double> v, w;
	Matrix<double> m;
	a.readValue(z, "z");
	a.readValue(k, "z");
	a.readValue(v, "v");
	a.readValue(w, "w");
	a.readValue(m, "m");
	psx_assert(z == x && k == d - '0', "a number by macro");
	psx_assert(v.size() == 3 && v[0] == x && v[1] == y && v[2] == 11 * x, "a vector by macros");
	psx_assert(w.size() == 3 && w[0] == y && w[1] == y && w[2] == y, "a vector by macros");
	psx_assert(m(0, 0) == y && m(0, 1) == x && m(1, 0) == 1 && m(1, 1) == x, "a matrix by macros");
}

// ---------------------------------------------------------------- tables
static const char* g_y[4] = { "0.0000001234567", "-3", "98765.4321", "1e10" };
static void put(const std::string& text) { psx_put_file("t", text.data(), text.size()); }
static char digit(bool symbolic) { return symbolic ? psx_range("digit", '0', '9') : '0' + psx_choose("digit", 3); }
static void tables(Sz n, bool sym)
{
	bool comma = !sym && psx_choose("comma", 2), end = sym || psx_choose("last line ends", 2);
	std::string file;
	char x[4];
	for (Sz i = 0; i < n; ++i) {
		Sz b = psx_choose("blank", i == 0 && !sym ? 4 : 1);
		file += b == 0 ? "" : b == 1 ? "\n" : b == 2 ? "  \n" : "\t \n";
		x[i] = digit(sym);
		file += x[i];
		file += ".5";
		file += comma ? "," : i % 2 ? "  " : " ";
		file += g_y[i];
		if (i + 1 < n || end)
			file += "\n";
	}
	put(file);
	char d = digit(sym);
	std::string s = std::string("function f = \\AinurFromFile(\"t\"") + (comma ? ",comma" : !sym && psx_choose("separator", 2) ? ",space" : "") + ");\nreal r = \\f(" + d + ".5);\n";
	Ainur a(s);
	double r = 0;
	bool ok = reads(a, r, "r");
	Sz k = 0;
	while (k < n && x[k] != d)
		++k;
	psx_assert(ok == (k < n), "an argument that is not in the table is an error");
	if (k < n)
		psx_assert(r == strtod(g_y[k], nullptr), "the tabulated value");
}
PSX_CASE(table)
{
	Sz n = 1 + psx_choose("lines", PSX_T(3, 4));
	tables(n, false);
}
PSX_CASE(table_any) { tables(1, true); }
PSX_CASE(columns)
{
	Sz cols = 1 + psx_choose("columns", 3), cx = psx_choose("column x", 4), cy = psx_choose("column y", 4), rows = 2;
	std::string file;
	for (Sz i = 0; i < rows; ++i) {
		for (Sz j = 0; j < cols; ++j)
			file += (j ? " " : "") + ttos(10 * i + j);
		file += "\n";
	}
	put(file);
	bool good = cx < cols && cy < cols, ok = true;
	try {
		Ainur a("function f = \\AinurFromFile(\"t\",space," + ttos(cx) + "," + ttos(cy) + ");\nvector v = [0,1];\nreal x = \\f(" + ttos(10 + cx) + ");");
		int x = -1;
		a.readValue(x, "x");
		psx_assert(x == (int)(10 + cy), "the tabulated value");
	} catch (std::exception&) {
		ok = false;
	}
	psx_assert(ok == good, "too few columns are an error");
}
PSX_CASE(wrong)
{
	static const char* files[] = { "1 2\n", "1 x\n", "x 2\n", "1\n", "1 2 3\n", "1 2\n3\n" };
	static const char* args[] = { "(\"t\")", "(\"t\",space)", "(\"t\",space,0,1)", "(\"nosuch\")", "(\"t\",tab)", "(\"t\",space,0,1,2)", "()", "(\"t\",space,a,1)", "(\"t\",space,0)", "(\"t\",space,-1,1)", "(\"t\",space,1,0)" };
	static const char* uses[] = { "\\f(1)", "\\f(2)", "\\f(1.0)", "\\f(x)", "\\g(1)", "\\f()", "\\f", "\\f(1)(1)", "1\\f(1)" };
	Sz i = psx_choose("file", 6), j = psx_choose("arguments", 11), k = psx_choose("use", 9);
	put(files[i]);
	bool good = (i == 0 || i == 4) && (j < 3 || j == 8 || j == 10) && k < 3;
	if (good)
		good = j == 10 ? k == 1 : k != 1;
	double x = 0;
	bool ok = true;
	try {
		Ainur a(std::string("function f = \\AinurFromFile") + args[j] + ";\nreal x = " + uses[k] + ";\n");
		a.readValue(x, "x");
	} catch (std::exception&) {
		ok = false;
	}
	psx_assert(ok == good, "missing tables, columns, arguments and definitions are errors");
	if (ok)
		psx_assert(x == (j == 10 ? 1 : 2), "the tabulated value");
}
PSX_CASE(two_tables)
{
	put("1 10\n2 20\n");
	psx_put_file("u", "1 11\n2 22\n3 33\n", 15);
	bool order = psx_choose("order", 2), sameTwice = psx_choose("same table", 2);
	std::string f = "function f = \\AinurFromFile(\"t\");", g = std::string("function g = \\AinurFromFile(\"") + (sameTwice ? "t" : "u") + "\");";
	Ainur a((order ? f + g : g + f) + "vector v = [\\f(1), \\g(2),\\f(2),\\g(1)];matrix m=[[\\f(1)],[\\g(2)]];string w = \\g(%t);");
	std::vector<double> v;
	Matrix<double> m;
	std::string w;
	a.readValue(v, "v");
	a.readValue(m, "m");
	a.readValue(w, "w");
	double p = sameTwice ? 20 : 22, q = sameTwice ? 10 : 11;
	psx_assert(v.size() == 4 && v[0] == 10 && v[1] == p && v[2] == 20 && v[3] == q, "values of two tables");
	psx_assert(m(0, 0) == 10 && m(1, 0) == p, "values of two tables");
	replaceAll(w, "%t", "1");
	psx_assert(strtod(a.resolve(w).c_str(), nullptr) == q, "an argument given later");
}
PSX_CASE(long_lines)
{
	Sz n = 2040 + psx_choose("length", 12);
	std::string file = "1 2" + std::string(n - 3, ' ') + "\n3 4\n";
	put(file);
	Ainur a("function f = \\AinurFromFile(\"t\");real x = \\f(1);real y = \\f(3);");
	double x, y;
	a.readValue(x, "x");
	a.readValue(y, "y");
	psx_assert(x == 2 && y == 4, "tables with long lines");
}

// definitions that need themselves, and names that have no value
PSX_CASE(cycles)
{
	Sz n = 1 + psx_choose("macros", PSX_T(3, 4)), to[4];
	std::string text;
	for (Sz i = 0; i < n; ++i) {
		to[i] = psx_choose("definition", n + 2);
		std::string x(1, 'a' + i);
		text += "string " + x;
		if (to[i] < n)
			text += "=1\\" + std::string(1, 'a' + to[i]) + (psx_choose("twice", 2) ? "\\" + std::string(1, 'a' + to[i]) : "");
		else if (to[i] == n)
			text += "=2";
		text += ";";
	}
	bool good = true;
	for (Sz i = 0; i < n; ++i) {
		Sz k = i, steps = 0;
		while (k < n && steps <= n) {
			if (to[k] == n + 1 && k != i)
				good = false;
			k = to[k];
			++steps;
		}
		if (k < n)
			good = false;
	}
	bool ok = true;
	try {
		Ainur a(text);
		for (Sz i = 0; i < n; ++i) {
			std::string t;
			psx_assert(reads(a, t, std::string(1, 'a' + i)) == (to[i] < n + 1), "a name with a value is read");
		}
	} catch (std::exception&) {
		ok = false;
	}
	psx_assert(ok == good, "definitions that need themselves or a name without a value are errors");
}

// long values with many uses, and long tables
PSX_CASE(large)
{
	Sz n = psx_choose("uses", 2) ? 6 : 9;
	std::string s = "\"";
	for (Sz i = 0; i < n; ++i) {
		s += std::string(i * 3, "xyz "[i % 4]);
		s += "\\" + g_names[(i * 5 / 2) % 3] + (i % 2 ? "," : " ");
		if (i == n / 2) {
			char c = psx_range("c", 'c', 'y');
			s += c;
		}
	}
	s += "end\"";
	std::string text = "string s=" + s + ";\n";
	for (Sz i = 0; i < 3; ++i)
		text += "string " + g_names[i] + " = " + g_values[i] + ";\n";
	check(text, s, g_names, g_values, 3);
}
PSX_CASE(large_table)
{
	Sz n = psx_choose("lines", 2) ? 12 : 40, q = psx_choose("asked", 4), k = q == 0 ? 0 : q == 1 ? n / 2 : q == 2 ? n - 1 : n;
	std::string file;
	std::vector<std::string> y(n);
	for (Sz i = 0; i < n; ++i) {
		y[i] = std::to_string(i * i * 7919) + "." + std::to_string(i);
		if (i == k)
			y[i] = std::string(1, (char)psx_range("digit", '1', '9')) + "7";
		file += std::to_string((i * 17) % 41) + ".5 " + y[i] + "\n" + (i % 5 == 2 ? "\n" : "");
	}
	put(file);
	Ainur a("function f = \\AinurFromFile(\"t\");\nreal r = \\f(" + std::to_string(k < n ? (k * 17) % 41 : 50) + ".5);\n");
	double r = 0;
	bool ok = reads(a, r, "r");
	psx_assert(ok == (k < n), "an argument that is not in the table is an error");
	if (k < n)
		psx_assert(r == strtod(y[k].c_str(), nullptr), "the tabulated value");
}

// every pair of arguments, however close, has its own value
PSX_CASE(near)
{
	static const char* x[] = { "0.0000001", "0.0000002", "1", "1.0000001", "1.000000000000001", "-1", "1000000", "1000000.5", "1e-300", "2e-300", "1e300", "0" };
	static const char* y[] = { "1", "2.5", "-3", "1e10", "5", "-6.125", "7", "8", "9", "1e-9", "11", "12" };
	Sz n = 12, i = psx_choose("first", n), j = psx_choose("second", n), k = psx_choose("asked", n);
	if (i == j)
		psx_stop();
	char c = psx_range("digit", '1', '9');
	put(std::string(x[i]) + " " + c + "\n" + x[j] + " " + y[j] + "\n");
	Ainur a(std::string("function f = \\AinurFromFile(\"t\");\nreal r = \\f(") + x[k] + ");\n");
	double r = 0;
	bool ok = reads(a, r, "r");
	psx_assert(ok == (k == i || k == j), "an argument that is not in the table is an error");
	if (ok)
		psx_assert(r == (k == i ? double(c - '0') : strtod(y[j], nullptr)), "the tabulated value");
}

// long names that differ in one letter, or by one more
PSX_CASE(long_names)
{
	static const Sz lens[] = { 2, 9, 17, 33, 65, 129, 257 };
	Sz n = lens[psx_choose("length", 7)], where = psx_choose("where", 4), order = psx_choose("order", 2);
	std::string a(n, 'x');
	for (Sz i = 0; i < n; ++i)
		a[i] = 'a' + (i * 7) % 26;
	std::string b = a;
	if (where == 3)
		b += 'q';
	else {
		Sz p = where == 0 ? 0 : where == 1 ? n / 2 : n - 1;
		b[p] = a[p] == 'z' ? 'b' : 'z';
	}
	std::string names[2] = { a, b }, values[2];
	for (Sz i = 0; i < 2; ++i)
		values[i] = std::string(1 + 40 * i, (char)psx_range("digit", '1', '9'));
	std::string s = "u\\" + names[order] + ",\\" + names[1 - order] + "+\\" + names[order];
	check("string " + a + "=" + values[0] + ";\nstring " + b + "=" + values[1] + ";\nstring s=" + s + ";\n", s, names, values, 2);
}
