// P21: label=value input files.
//@ src: PsimagLite.cpp
//@ flags: -UUSE_BOOST
//@ bounds: files of 0..3 (quick) / 0..4 (thorough) entries, each a number, a text or a vector of 1..3 numbers, with labels from a list with common beginnings, and every combination of the listed blanks, blank lines and comments between entries; 1..12 repeats of one label; digits symbolic; loop lines (!A$iB) with 1..3 values; every text of length 0..5 / 0..6 over "x=v 1#\n!$i" for safety; pairs of labels of up to 258 letters that differ in one letter or by one more; files of 20 and 60 entries of 26 labels with vectors of up to 37 numbers, fixed but for one digit
//@ case large max_instr=60000000
//@ assume: texts contain no blanks or comment marks; labels begin with a letter; the application accepts every label and checks the announced count
#include "psx.h"
#include "Vector.h"
#include "InputNg.h"
#include "InputCheckBase.h"
#include <fstream>
using namespace PsimagLite;
typedef InputNg<InputCheckBase> Input;
typedef Input::Writeable W;
typedef Input::Readable Rd;

static std::string num(int v) { char b[20]; snprintf(b, sizeof b, "%d", v); return b; }
struct Entry {
	bool vec;
	std::string label;
	std::vector<std::string> words;
};
static const char* const LABELS[] = { "a", "ab", "b" };
static const char* const SEPS[] = { "\n", " # a=9 x\n", "\n\n#b 1 9\n", "#z\n \t", "\n\t " };
static const char* const GAPS[] = { " ", "\n", "  \t", " #c 4\n" };
static std::string digits(size_t n)
{
	std::string s(n, '0');
	for (size_t i = 0; i < n; ++i) {
		s[i] = (char)psx_range("digit", '0', '9');
		if (i == 0)
			psx_assume(s[i] != '0');
	}
	return s;
}
static Entry entry(std::string& text, bool more)
{
	Entry e;
	e.label = LABELS[psx_choose("label", 3)];
	size_t kind = psx_choose("kind", 4);
	e.vec = kind >= 2;
	if (kind == 0) {
		e.words.push_back(digits(2));
		text += e.label + "=" + (psx_choose("blank", 2) ? " " : "") + e.words[0];
	} else if (kind == 1) {
		e.words.push_back("t,x=y.1");
		text += e.label + "=" + e.words[0];
	} else {
		size_t n = kind == 2 ? 1 : 2;
		text += e.label;
		std::string gap = GAPS[psx_choose("gap", more ? 4 : 2)];
		text += gap + num(n);
		for (size_t i = 0; i < n; ++i) {
			e.words.push_back(digits(1));
			text += gap + e.words[i];
		}
	}
	return e;
}
static void readBack(Rd& r, const std::vector<Entry>& es)
{
	for (int vec = 0; vec < 2; ++vec)
		for (size_t l = 0; l < 3; ++l) {
			size_t seen = 0;
			for (size_t i = 0; i < es.size(); ++i) {
				if (es[i].label != LABELS[l] || es[i].vec != (vec == 1))
					continue;
				++seen;
				try {
					if (vec) {
						std::vector<std::string> v(5, "old");
						r.read(v, LABELS[l]);
						psx_assert(v.size() == es[i].words.size(), "vectors deliver the announced count");
						for (size_t k = 0; k < v.size(); ++k)
							psx_assert(v[k] == es[i].words[k], "the numbers given, in order");
					} else {
						std::string s = "old";
						r.readline(s, std::string(LABELS[l]) + "=");
						psx_assert(s == es[i].words[0], "the text given, repeated labels in file order");
						psx_observe_str(s);
					}
				} catch (RuntimeError&) {
					psx_assert(false, "a label of the file is found");
				}
			}
			if (seen)
				continue;
			bool ok = false;
			try {
				std::string s;
				std::vector<std::string> v;
				if (vec)
					r.read(v, LABELS[l]);
				else
					r.readline(s, std::string(LABELS[l]) + "=");
				ok = true;
			} catch (RuntimeError&) {
			}
			psx_assert(!ok, "missing labels are errors");
		}
}
// a label used for numbers and for a vector in one file is outside the format
static bool mixed(const std::vector<Entry>& es)
{
	for (size_t i = 0; i < es.size(); ++i)
		for (size_t j = 0; j < i; ++j)
			if (es[i].label == es[j].label && es[i].vec != es[j].vec)
				return true;
	return false;
}
static void file(size_t n, bool viaFile)
{
	std::vector<Entry> es;
	std::string text = psx_choose("start", 2) ? "# comment\n" : "";
	for (size_t i = 0; i < n; ++i) {
		es.push_back(entry(text, n < PSX_T(2, 3)));
		bool last = i + 1 == n;
		if (last && psx_choose("end", 2))
			break; // no end of line
		text += SEPS[psx_choose("sep", n == 1 || (n == 2 && !last) ? 5 : PSX_T(1, 2))];
	}
	if (mixed(es)) {
		psx_assert(true, "");
		return;
	}
	InputCheckBase check;
	if (!viaFile) {
		W w(check, text);
		Rd r(w);
		readBack(r, es);
		return;
	}
	psx_put_file("in.inp", text.data(), text.size());
	W w("in.inp", check);
	Rd r(w);
	psx_assert(r.filename() == "in.inp", "name of the file");
	readBack(r, es);
}
PSX_CASE(text_0) { file(0, false); }
PSX_CASE(text_1) { file(1, false); }
PSX_CASE(text_2) { file(2, false); }
#ifdef PSX_THOROUGH
PSX_CASE(text_3) { file(3, false); }
#endif
PSX_CASE(file_1) { file(1, true); }
PSX_CASE(repeated)
{
	// more than ten of one label
	size_t n = 1 + psx_choose("repeats", 12);
	bool vec = psx_bool("vector");
	std::string text, lab = psx_choose("label", 2) ? "t" : "t1";
	std::vector<std::string> ws;
	for (size_t i = 0; i < n; ++i) {
		ws.push_back(num(10 + i));
		text += vec ? lab + " 1 " + ws[i] + "\n" : lab + "=" + ws[i] + "\n";
		if (i == 1)
			text += "t0=7\n";
		if (i == 2)
			text += "t11=8\n";
	}
	InputCheckBase check;
	W w(check, text);
	Rd r(w);
	for (size_t i = 0; i < n; ++i) {
		if (vec) {
			std::vector<double> v;
			r.read(v, lab);
			psx_assert(v.size() == 1 && v[0] == 10. + i, "repeated vectors in file order");
		} else {
			int k = 0;
			r.readline(k, lab + "=");
			psx_assert(k == 10 + (int)i, "repeated labels in file order");
		}
	}
	int k = 0;
	if (n > 1) {
		r.readline(k, "t0=");
		psx_assert(k == 7, "other label");
	}
	if (n > 2) {
		r.readline(k, "t11=");
		psx_assert(k == 8, "other label");
	}
}
PSX_CASE(types)
{
	std::string d = digits(1 + psx_choose("n", 4));
	bool neg = psx_bool("negative");
	int want = 0;
	for (size_t i = 0; i < d.size(); ++i)
		want = want * 10 + (d[i] - '0');
	if (neg)
		want = -want;
	InputCheckBase check;
	W w(check, "x=" + std::string(neg ? "-" : "") + d + "\n");
	Rd r(w);
	switch (psx_choose("type", 5)) {
	case 2: {
		SizeType k = 5;
		bool ok = false, how = psx_choose("how", 2);
		try {
			how ? r.readline(k, "x=") : r.read(k, "x");
			ok = true;
		} catch (RuntimeError&) {
		}
		psx_assert(ok == (want >= 0), "a negative number for an unsigned label is an error");
		psx_assert(!ok || k == (SizeType)want, "unsigned");
		break;
	}
	case 4: {
		W wv(check, "x 2 7 " + std::string(neg ? "-" : "") + d + "\n");
		Rd rv(wv);
		std::vector<SizeType> v;
		bool ok = false;
		try {
			rv.read(v, "x");
			ok = true;
		} catch (RuntimeError&) {
		}
		psx_assert(ok == (want >= 0), "a negative number in an unsigned vector is an error");
		psx_assert(!ok || (v.size() == 2 && v[0] == 7 && v[1] == (SizeType)want), "unsigned vector");
		break;
	}
	case 0: {
		int k = 5;
		r.readline(k, "x=");
		psx_assert(k == want, "int");
		break;
	}
	case 1: {
		long k = 5;
		r.readline(k, "x=");
		psx_assert(k == want, "long");
		break;
	}
	default: {
		std::string s;
		r.readline(s, "x=", false); // kept
		r.readline(s, "x=", true, true); // taken
		psx_assert(s == std::string(neg ? "-" : "") + d, "text");
		bool again = true;
		try {
			r.readline(s, "x=");
		} catch (RuntimeError&) {
			again = false;
		}
		psx_assert(!again, "taken");
	}
	}
}
PSX_CASE(not_numbers)
{
	static const char* const bad[] = { "3x", "x", "3.5.1", "1+2", "--3" };
	std::string b = bad[psx_choose("bad", 5)];
	size_t how = psx_choose("how", 4);
	bool ok = false;
	InputCheckBase check;
	try {
		W w(check, how < 2 ? "x=" + b + "\n" : "x 1 " + b + "\n");
		Rd r(w);
		if (how == 0) {
			int k;
			r.readline(k, "x=");
		} else if (how == 1) {
			double k;
			r.readline(k, "x=");
		} else if (how == 2) {
			std::vector<double> v;
			r.read(v, "x");
		} else {
			std::vector<SizeType> v;
			r.read(v, "x");
		}
		ok = true;
	} catch (RuntimeError&) {
	}
	psx_assert(!ok, "what is not a number is an error");
}
PSX_CASE(doubles)
{
	static const char* const txt[] = { "0.5", "-2.25", "1e2", "+3", ".5", "4." };
	static const double val[] = { 0.5, -2.25, 100, 3, 0.5, 4 };
	size_t i = psx_choose("i", 6), j = psx_choose("j", 6);
	InputCheckBase check;
	W w(check, std::string("x=") + txt[i] + "\nv 2 " + txt[i] + " " + txt[j] + "\n");
	Rd r(w);
	double x = 0;
	r.readline(x, "x=");
	std::vector<double> v;
	r.read(v, "v");
	psx_assert(x == val[i] && v.size() == 2 && v[0] == val[i] && v[1] == val[j], "real numbers");
	std::vector<std::complex<double>> c;
	W w2(check, std::string("v 2 (") + txt[i] + "," + txt[j] + ") " + txt[j] + "\n");
	Rd r2(w2);
	r2.read(c, "v");
	psx_assert(c.size() == 2 && c[0] == std::complex<double>(val[i], val[j]) && c[1] == val[j], "complex numbers");
}
PSX_CASE(counts)
{
	// announced and given
	size_t n = psx_choose("announced", 5), m = psx_choose("given", 5);
	std::string text = "v " + num(n);
	for (size_t i = 0; i < m; ++i)
		text += " " + digits(1);
	size_t tail = psx_choose("tail", 3);
	text += tail == 0 ? "" : tail == 1 ? "\nx=1\n" : " #5\nw 1 2\n";
	bool ok = false;
	InputCheckBase check;
	try {
		W w(check, text);
		Rd r(w);
		std::vector<SizeType> v;
		r.read(v, "v");
		psx_assert(v.size() == n, "announced count");
		ok = true;
	} catch (RuntimeError&) {
	}
	psx_assert(ok == (n == m && n > 0), "vectors whose count does not match are errors");
}
// matrices: the application accepts the count
struct Lenient : InputCheckBase {
	bool check(const String& label, const std::vector<String>&, SizeType) const { return label == "m"; }
	void check(const String&, const String&, SizeType) { }
};
template <typename T>
static void matrixCase(T (*value)(size_t), std::string (*text1)(size_t))
{
	typedef InputNg<Lenient> In;
	size_t n = psx_choose("rows", 4), m = psx_choose("cols", 4), k = psx_choose("entries", 8);
	bool half = k == 7 && psx_choose("no columns", 2);
	std::string text = "m " + num(n);
	if (half)
		k = 0;
	else
		text += " " + num(m);
	for (size_t i = 0; i < k; ++i)
		text += " " + text1(i);
	Lenient check;
	Matrix<T> a;
	bool ok = false;
	try {
		In::Writeable w(check, text + "\n");
		In::Readable r(w);
		r.read(a, "m");
		ok = true;
	} catch (RuntimeError&) {
	}
	psx_assert(ok == (!half && n > 0 && m > 0 && k >= n * m), "matrices without enough entries are errors");
	if (!ok)
		return;
	psx_assert(a.rows() == n && a.cols() == m, "size");
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < m; ++j)
			psx_assert(a(i, j) == value(i * m + j), "entries by rows");
}
static double realValue(size_t i) { return 1. + i; }
static std::complex<double> complexValue(size_t i) { return std::complex<double>(i, i % 2 ? -1. - i : 0); }
static std::string realText(size_t i) { return num(i + 1); }
static std::string complexText(size_t i) { return i % 2 ? "(" + num(i) + "," + num(-1 - (int)i) + ")" : num(i); }
PSX_CASE(matrix) { matrixCase<double>(realValue, realText); }
PSX_CASE(matrix_complex) { matrixCase<std::complex<double>>(complexValue, complexText); }
PSX_CASE(loop_lines)
{
	size_t n = psx_choose("values", 4);
	std::string a = psx_choose("a", 2) ? "" : "A", b = psx_choose("b", 2) ? "" : "B", text = "q=1\n!" + a + "$i" + b;
	if (a == "")
		a = "";
	std::vector<std::string> ws;
	for (size_t i = 0; i < n; ++i) {
		ws.push_back(digits(2));
		text += (i && psx_choose("blanks", 2) ? "  " : " ") + ws[i];
	}
	text += "\nz=2\n";
	bool ok = false;
	InputCheckBase check;
	try {
		W w(check, text);
		Rd r(w);
		ok = true;
		std::string s;
		for (size_t i = 0; i < n; ++i) {
			r.readline(s, a + num(i) + b + "=");
			psx_assert(s == ws[i], "one label for each value");
		}
		r.readline(s, "q=");
		psx_assert(s == "1", "line before");
		r.readline(s, "z=");
		psx_assert(s == "2", "line after");
	} catch (RuntimeError&) {
		psx_assert(!ok, "labels are found");
	}
	psx_assert(ok == (n > 0), "a loop line without values is an error");
}
PSX_CASE(map_of_labels)
{
	// named numbers, and others whose labels contain the name
	static const char* const keys[] = { "p[x]", "p[yy]", "p[p]", "q[x]", "xp[a]", "q[p]", "pp[z]", "p", "p[]" };
	size_t i = psx_choose("first", 9), j = psx_choose("second", 9);
	psx_assume(i != j);
	std::string d = digits(1), e = digits(2);
	InputCheckBase check;
	W w(check, keys[i] + ("=" + d) + "\n" + keys[j] + "=" + e + "\n");
	Rd r(w);
	std::map<String, double> m, want;
	r.read(m, "p");
	for (size_t k : { i, j })
		if (k < 3 || k == 8) {
			const String key = keys[k];
			const std::string& v = k == i ? d : e;
			double x = 0;
			for (char c : v)
				x = 10 * x + (c - '0');
			want[key.substr(2, key.length() - 3)] = x;
		}
	psx_assert(m.size() == want.size(), "the numbers named, and only those");
	for (auto& x : want)
		psx_assert(m.count(x.first) && m[x.first] == x.second, "named numbers");
	psx_observe(m.size());
}
PSX_CASE(safety)
{
	std::string s = psx_string("c", psx_choose("n", PSX_T(6, 7)), "x=v 1#\n!$i");
	InputCheckBase check;
	try {
		W w(check, s);
		Rd r(w);
		std::string t;
		r.readline(t, "x=");
		psx_observe_str(t);
	} catch (std::exception&) {
	}
	psx_assert(true, "");
}

// long files: vectors of many numbers, many labels, more than ten of some
PSX_CASE(large)
{
	size_t n = psx_choose("entries", 2) ? 20 : 60, at = psx_choose("symbolic one", 3) * (n / 2 - 1);
	std::vector<Entry> es(n);
	std::string text;
	for (size_t i = 0; i < n; ++i) {
		Entry& e = es[i];
		e.vec = i % 3 == 2;
		size_t l = (i * 7) % 13;
		e.label = std::string(e.vec ? "v" : "s") + (l < 4 ? "" : "Label") + std::to_string(l);
		if (e.vec) {
			size_t m = 1 + (i * 11) % 37;
			text += e.label + " " + num(m);
			for (size_t j = 0; j < m; ++j) {
				e.words.push_back(i == at && j == m / 2 ? digits(1) : num(i * j));
				text += (j % 10 == 9 ? "\n" : " ") + e.words[j];
			}
		} else {
			e.words.push_back(i == at ? digits(1) : "word" + num(i * i));
			text += e.label + "=" + e.words[0];
		}
		text += i % 5 == 1 ? " # remark 1\n" : "\n";
	}
	InputCheckBase check;
	W w(check, text);
	Rd r(w);
	for (size_t i = 0; i < n; ++i) {
		const Entry& e = es[i];
		try {
			if (e.vec) {
				std::vector<std::string> v(3, "old");
				r.read(v, e.label);
				psx_assert(v.size() == e.words.size(), "vectors deliver the announced count");
				for (size_t k = 0; k < v.size(); ++k)
					psx_assert(v[k] == e.words[k], "the numbers given, in order");
			} else {
				std::string s;
				r.readline(s, e.label + "=");
				psx_assert(s == e.words[0], "the text given, repeated labels in file order");
			}
		} catch (RuntimeError&) {
			psx_assert(false, "a label of the file is found");
		}
	}
}

// long labels that differ in one letter, or by one more
PSX_CASE(long_labels)
{
	static const size_t lens[] = { 2, 9, 17, 33, 65, 129, 257 };
	size_t n = lens[psx_choose("length", 7)], where = psx_choose("where", 4), order = psx_choose("order", 2);
	std::string a(n, 'x');
	for (size_t i = 0; i < n; ++i)
		a[i] = 'a' + (i * 7) % 26;
	std::string b = a;
	if (where == 3)
		b += 'q';
	else {
		size_t p = where == 0 ? 0 : where == 1 ? n / 2 : n - 1;
		b[p] = a[p] == 'z' ? 'b' : 'z';
	}
	std::string d = digits(1), e = digits(1), f = digits(1), g = digits(1);
	std::string x = a + "=" + d + "\n", y = b + "=" + e + "\n", z = b + " 2 " + f + " " + g + "\n";
	bool ok = true;
	int k = 0, l = 0, m = 0;
	std::vector<int> v;
	InputCheckBase check;
	W w(check, order ? z + x + y : y + z + x);
	Rd r(w);
	r.readline(k, a + "=");
	r.readline(l, b + "=");
	r.read(v, b);
	try {
		r.readline(m, b + "z=");
	} catch (std::exception&) {
		ok = false;
	}
	psx_assert(k == d[0] - '0' && l == e[0] - '0' && v.size() == 2 && v[0] == f[0] - '0' && v[1] == g[0] - '0', "each label has its own values, however long");
	psx_assert(!ok, "a label that is not in the file is an error");
}
