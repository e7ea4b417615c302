// P16: textual predicates.
//@ src: PsimagLite.cpp PredicateSimple.cpp
//@ bounds: one comparison: all seven operators, either side a variable or a number of 1..2 symbolic digits, variables int/SizeType 0..120 (divisibility: one digit, 0..30 in quick) and negative int, also double; two- and three-way conjunctions of comparisons over up to four variables; disjunctions of up to three conjunctions with one or two comparisons each; sides of the form op:a:b for + - * %; caller-chosen separators; every text of length 0..4 (quick) / 0..6 (thorough) over "l1=<>!%&," for well-formedness; texts of 12 and 25 conjunctions of up to four comparisons with numbers of up to 7 digits and one symbolic variable
//@ case large max_instr=60000000
//@ assume: variable names are not part of one another; a variable that adjoins other letters of a word is outside the documented form
#include "psx.h"
#include "PredicateAwesome.h"
using namespace PsimagLite;

static const char* OPS[] = { "==", "!=", "<=", ">=", ">", "<", "%%" };
template <typename T>
static bool truth(size_t op, T a, T b)
{
	switch (op) {
	case 0:
		return a == b;
	case 1:
		return a != b;
	case 2:
		return a <= b;
	case 3:
		return a >= b;
	case 4:
		return a > b;
	case 5:
		return a < b;
	default:
		return (long)a % (long)b == 0;
	}
}
// decimal text of a number with symbolic digits
static std::string num(size_t digits, long& v)
{
	std::string s;
	v = 0;
	for (size_t i = 0; i < digits; ++i) {
		s += (char)psx_range("digit", '0', '9');
		v = 10 * v + (s[i] - '0');
	}
	return s;
}
template <typename T>
static void simple(T lo, T hi)
{
	size_t op = psx_choose("op", 7);
	T val = (T)psx_int("l", (int)lo, op == 6 ? PSX_T(30, (int)hi) : (int)hi);
	long v;
	std::string t = num(op == 6 ? PSX_T(1, 2) : 1 + psx_choose("digits", 2), v);
	bool left = psx_choose("variable on the right", 2) == 0;
	std::string p = left ? std::string("l") + OPS[op] + t : t + OPS[op] + "l";
	T a = left ? val : (T)v, b = left ? (T)v : val;
	bool zero = op == 6 && b == 0;
	bool r = false, ok = false;
	try {
		PredicateAwesome<> pred(p);
		r = pred.isTrue("l", val);
		ok = true;
	} catch (RuntimeError&) {
	}
	psx_assert(ok == !zero, "only divisibility by zero is an error");
	if (ok && !zero) {
		psx_assert(r == truth(op, a, b), "value of the comparison");
		psx_observe(r);
	}
}
PSX_CASE(simple_int) { simple<int>(-15, 120); }
PSX_CASE(simple_size) { simple<SizeType>(0, 120); }
PSX_CASE(simple_double) { simple<double>(0, 120); }
PSX_CASE(two_variables)
{
	// both sides variables, names longer than one letter
	size_t op = psx_choose("op", 6);
	int a = psx_int("a", 0, 150), b = psx_int("b", 0, 150);
	std::string p = std::string("site") + OPS[op] + "n2";
	PredicateAwesome<> pred(p);
	psx_assert(pred.isTrue("site", a, "n2", b) == truth(op, a, b), "value of the comparison");
	psx_assert(pred.isTrue("n2", b, "site", a) == truth(op, a, b), "order of the variables does not matter");
}
PSX_CASE(expression_side)
{
	// one side is an operator with two operands
	size_t op = psx_choose("op", 6), k = psx_choose("arith", 4);
	int val = psx_int("l", 0, 20);
	long v, w;
	std::string t = num(1, v), u = num(1, w);
	const char* A = "+-*%";
	bool left = psx_choose("side", 2);
	std::string e = std::string(1, A[k]) + ":l:" + t;
	long x = k == 0 ? val + v : k == 1 ? val - v : k == 2 ? val * v : v == 0 ? val : val % v;
	PredicateAwesome<> pred(left ? e + OPS[op] + u : u + OPS[op] + e);
	bool r = pred.isTrue("l", val);
	psx_assert(r == (left ? truth<long>(op, x, w) : truth<long>(op, w, x)), "value of the comparison");
	psx_observe(r);
}
// a list of comparisons of the named variables with one-digit numbers
struct Cmp {
	size_t var, op;
	long v;
	std::string text;
};
static const char* NAMES[] = { "l", "ab", "c", "n3" };
static Cmp cmp(size_t nvars, size_t nops)
{
	Cmp c;
	c.var = psx_choose("var", nvars);
	c.op = psx_choose("op", nops);
	std::string t = num(1, c.v);
	c.text = std::string(NAMES[c.var]) + OPS[c.op] + t;
	return c;
}
PSX_CASE(conjunction)
{
	size_t nv = 1 + psx_choose("variables", 4), n = 1 + psx_choose("comparisons", PSX_T(2, 3));
	int v[4];
	for (size_t i = 0; i < nv; ++i)
		v[i] = psx_int("value", 0, 12);
	std::string p;
	bool e = true;
	for (size_t i = 0; i < n; ++i) {
		Cmp c = cmp(nv, n == 1 ? 6 : PSX_T(2, n > 2 ? 2 : 4));
		p += (i ? "&" : "") + c.text;
		e = e && truth<long>(c.op, v[c.var], c.v);
	}
	PredicateAnd q(p);
	PredicateAwesome<> w(p);
	bool r, s;
	if (nv == 1) {
		r = q.isTrue(NAMES[0], v[0]);
		s = w.isTrue(NAMES[0], v[0]);
	} else if (nv == 2) {
		r = q.isTrue(NAMES[0], v[0], NAMES[1], v[1]);
		s = w.isTrue(NAMES[0], v[0], NAMES[1], v[1]);
	} else if (nv == 3) {
		r = q.isTrue(NAMES[0], v[0], NAMES[1], v[1], NAMES[2], v[2]);
		s = w.isTrue(NAMES[0], v[0], NAMES[1], v[1], NAMES[2], v[2]);
	} else {
		r = q.isTrue(NAMES[0], v[0], NAMES[1], v[1], NAMES[2], v[2], NAMES[3], v[3]);
		s = w.isTrue(NAMES[0], v[0], NAMES[1], v[1], NAMES[2], v[2], NAMES[3], v[3]);
	}
	psx_assert(r == e && s == e, "true exactly if every comparison is");
}
PSX_CASE(disjunction)
{
	size_t n = 1 + psx_choose("items", PSX_T(2, 3));
	int v[2];
	v[0] = psx_int("l", 0, 9);
	v[1] = psx_int("ab", 0, 9);
	size_t sep = psx_choose("separators", 2);
	std::string os = sep ? "|" : ",", as = sep ? ";" : "&";
	std::string p;
	bool e = false;
	for (size_t i = 0; i < n; ++i) {
		bool a = true;
		size_t m = 1 + psx_choose("comparisons", 2);
		for (size_t j = 0; j < m; ++j) {
			Cmp c = cmp(2, n > 2 ? 1 : PSX_T(2, 4));
			p += (j ? as : i ? os : "") + c.text;
			a = a && truth<long>(c.op, v[c.var], c.v);
		}
		e = e || a;
	}
	PredicateAwesome<> w(p, os, as);
	psx_assert(w.isTrue("l", v[0], "ab", v[1]) == e, "true exactly if one of the conjunctions is");
}
PSX_CASE(more_variables)
{
	// three and four variables through the disjunction
	int v[4];
	for (size_t i = 0; i < 4; ++i)
		v[i] = psx_int("value", 0, 9);
	Cmp c = cmp(4, 6), d = cmp(3, 2);
	PredicateAwesome<> w(c.text + "," + d.text);
	bool e = truth<long>(c.op, v[c.var], c.v) || truth<long>(d.op, v[d.var], d.v);
	psx_assert(w.isTrue(NAMES[0], v[0], NAMES[1], v[1], NAMES[2], v[2], NAMES[3], v[3]) == e, "four variables");
	if (c.var < 3)
		psx_assert(w.isTrue(NAMES[0], v[0], NAMES[1], v[1], NAMES[2], v[2]) == e, "three variables");
	if (c.var < 2 && d.var < 2)
		psx_assert(w.isTrue(NAMES[0], v[0], NAMES[1], v[1]) == e, "two variables");
	if (c.var == 0 && d.var == 0)
		psx_assert(w.isTrue(NAMES[0], v[0]) == e, "one variable");
}
struct Spec {
	std::vector<std::string>* seen;
	void operator()(String s) { seen->push_back(s); }
};
PSX_CASE(settings)
{
	std::vector<std::string> seen;
	Spec sp;
	sp.seen = &seen;
	int l = psx_int("l", 0, 99);
	long v;
	std::string t = num(2, v);
	size_t where = psx_choose("where", 3);
	std::string s = "@M=2", p = "l==" + t;
	std::string text = where == 0 ? s + "," + p : where == 1 ? p + "," + s : s + "," + p + ",@x";
	PredicateAwesome<Spec> w(text, ",", "&", &sp);
	psx_assert(seen.size() == (where == 2 ? 2u : 1u) && seen[0] == s, "settings go to the specification");
	psx_assert(w.isTrue("l", l) == (l == v), "the predicate is what remains");
	bool threw = false;
	try {
		PredicateAwesome<Spec> u(text);
	} catch (RuntimeError&) {
		threw = true;
	}
	psx_assert(threw, "a setting without specification is an error");
	PredicateAwesome<> none("");
	psx_assert(!none.isTrue("l", l), "no predicate is never true");
}
// variable text must not be looked for in values written earlier
PSX_CASE(value_contains_name)
{
	int l = psx_int("l", 10, 19);
	PredicateAwesome<> w("1==l");
	long v;
	(void)v;
	psx_assert(!PredicateAwesome<>("x==0").isTrue("x", l), "comparison with zero");
	PredicateSimple s("1<=5");
	std::vector<std::string> names(1, "1");
	std::vector<int> vals(1, l);
	psx_assert(!s.isTrue(names, vals), "a name that its value contains is replaced once");
}
// well-formedness of every short text with the one variable l = 5 and the digit 1
static bool side(const std::string& s, long& v)
{
	if (s == "l") {
		v = 5;
		return true;
	}
	v = 0;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] != '1')
			return false;
		v = 10 * v + 1;
	}
	return !s.empty();
}
PSX_CASE(malformed)
{
	size_t n = psx_choose("n", PSX_T(5, 7));
	std::string s = psx_enum_string("c", n, n > 4 ? "l1=<%" : "l1=<>!%&,");
	bool adjoins = false;
	for (size_t i = 0; i + 1 < n; ++i)
		if ((s[i] == 'l' && (s[i + 1] == '1' || s[i + 1] == 'l')) || (s[i] == '1' && s[i + 1] == 'l'))
			adjoins = true;
	if (adjoins)
		return;
	bool good = true, value = false;
	std::vector<std::string> ors, ands;
	auto cut = [](const std::string& t, char c) {
		std::vector<std::string> r;
		std::string cur;
		for (size_t i = 0; i <= t.size(); ++i) {
			if (i < t.size() && t[i] != c) {
				cur += t[i];
				continue;
			}
			if (!cur.empty())
				r.push_back(cur);
			cur = "";
		}
		return r;
	};
	ors = cut(s, ',');
	bool decided = false; // evaluation stops at the first true conjunction
	bool syntax = true;
	for (size_t i = 0; i < ors.size(); ++i) {
		ands = cut(ors[i], '&');
		if (ands.empty())
			syntax = false;
		bool all = true, stop = false;
		for (size_t j = 0; j < ands.size(); ++j) {
			const std::string& a = ands[j];
			size_t at = a.size(), op = 7;
			for (size_t k = 0; k < a.size() && op == 7; ++k)
				for (size_t o = 0; o < 7; ++o)
					if (a.compare(k, strlen(OPS[o]), OPS[o]) == 0) {
						op = o;
						at = k;
						break;
					}
			if (op == 7 || a.size() < 3 || at == 0 || at + strlen(OPS[op]) == a.size()) {
				syntax = false;
				continue;
			}
			long x, y;
			bool okx = side(a.substr(0, at), x), oky = side(a.substr(at + strlen(OPS[op])), y);
			if (stop || decided)
				continue;
			if (!okx || !oky) {
				good = false;
				continue;
			}
			if (!truth<long>(op, x, y)) {
				all = false;
				stop = true;
			}
		}
		if (all && good && syntax && !decided) {
			decided = true;
			value = true;
		}
	}
	bool ok = false, r = false;
	try {
		PredicateAwesome<> w(s);
		r = w.isTrue("l", 5);
		ok = true;
	} catch (RuntimeError&) {
	}
	if (!syntax)
		psx_assert(!ok, "malformed text is an error");
	else
		psx_assert(ok == good, "a side that is neither number nor variable is an error");
	if (ok && good && syntax)
		psx_assert(r == value, "value");
}

// long texts: many conjunctions of several comparisons, numbers of many digits
PSX_CASE(large)
{
	size_t n = psx_choose("conjunctions", 2) ? 12 : 25, truthAt = psx_choose("true one", n + 1);
	int v[4], base[4] = { 1002003, 7, 123456, 99 };
	for (size_t i = 0; i < 4; ++i)
		v[i] = base[i];
	v[2] = psx_int("value", 123450, 123460);
	std::string p;
	bool e = false;
	for (size_t i = 0; i < n; ++i) {
		bool a = true;
		size_t m = 1 + i % 4;
		for (size_t j = 0; j < m; ++j) {
			size_t var = (i * 3 + j) % 4;
			if (j == 0)
				var = 2;
			long x = base[var];
			size_t op = j == 0 ? 0 : (i + j) % 2 ? 5 : 2;
			if (j > 0)
				x += op == 5 ? 1 : 0;
			if (j == 0)
				x = i == truthAt ? 123457 : 200000 + (long)i;
			p += (j ? "&" : i ? "," : "") + std::string(NAMES[var]) + OPS[op] + std::to_string(x);
			a = a && truth<long>(op, v[var], x);
		}
		e = e || a;
	}
	PredicateAwesome<> w(p);
	psx_assert(w.isTrue(NAMES[0], v[0], NAMES[1], v[1], NAMES[2], v[2], NAMES[3], v[3]) == e, "true exactly if one of the conjunctions is");
	psx_observe(e);
}
