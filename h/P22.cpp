// P22: comma-separated options.
//@ src: PsimagLite.cpp
//@ bounds: every option string of length 0..5 (quick) / 0..7 (thorough) over the bytes "aAb, -" made symbolic, queried with every name of length 0..2 over arbitrary bytes; registration lists of 0..3 names of length 1..2 over "aAb"; the three modes; lists of 18 and 70 options with a name asked for of two symbolic characters
//@ case large max_instr=60000000
//@ assume: an option is an item of the list exactly as written (case-sensitive, blanks included)
#include "psx.h"
#include "Options.h"
using namespace PsimagLite;

static std::vector<std::string> items(const std::string& s)
{
	std::vector<std::string> r;
	std::string cur;
	for (size_t i = 0; i <= s.size(); ++i) {
		if (i < s.size() && s[i] != ',') {
			cur += s[i];
			continue;
		}
		if (!cur.empty())
			r.push_back(cur);
		cur = "";
	}
	return r;
}
static bool has(const std::vector<std::string>& v, const std::string& s)
{
	for (size_t i = 0; i < v.size(); ++i)
		if (v[i] == s)
			return true;
	return false;
}
static std::string query(size_t n)
{
	std::string q(n, ' ');
	for (size_t i = 0; i < n; ++i)
		q[i] = (char)psx_u8("q");
	return q;
}
PSX_CASE(isSet)
{
	std::string s = psx_string("c", psx_choose("n", PSX_T(6, 8)), "aAb, -");
	Vector<String>::Type reg;
	Options::Writeable w(reg, Options::Writeable::PERMISSIVE);
	Options::Readable r(w, s);
	std::string q = query(psx_choose("m", 3));
	bool e = has(items(s), q);
	psx_assert(r.isSet(q) == e, "set exactly when it is a whole item");
	psx_observe(r.isSet(q));
}
PSX_CASE(registration)
{
	size_t k = psx_choose("registered", PSX_T(3, 4));
	Vector<String>::Type reg;
	for (size_t i = 0; i < k; ++i)
		reg.push_back(psx_string("r", 1 + psx_choose("len", 2), "aAb"));
	std::string s = psx_string("c", psx_choose("n", PSX_T(5, 6)), "aAb, ");
	size_t mode = psx_choose("mode", 3);
	Options::Writeable w(reg, mode);
	std::vector<std::string> it = items(s);
	bool allKnown = true;
	for (size_t i = 0; i < it.size(); ++i) {
		bool known = false;
		for (size_t j = 0; j < k; ++j)
			if (reg[j] == it[i])
				known = true;
		if (!known)
			allKnown = false;
	}
	bool threw = false;
	try {
		Options::Readable r(w, s);
		for (size_t i = 0; i < it.size(); ++i)
			psx_assert(r.isSet(it[i]) == (mode != Options::Writeable::DISABLED), "items are set unless disabled");
		psx_assert(!r.isSet(""), "an empty item is never set");
	} catch (RuntimeError&) {
		threw = true;
	}
	psx_assert(threw == (mode == Options::Writeable::STRICT && !allKnown), "an unregistered option is rejected when strict");
}
// the list given to Writeable is copied: later changes of the caller's list do not matter, and one
// Writeable may serve several option strings
PSX_CASE(reuse)
{
	Vector<String>::Type reg;
	reg.push_back("a");
	reg.push_back("b");
	Options::Writeable w(reg, Options::Writeable::STRICT);
	reg.clear();
	bool first = psx_bool("first");
	Options::Readable r1(w, first ? "a,b" : "b");
	Options::Readable r2(w, "a");
	psx_assert(r1.isSet("a") == first && r1.isSet("b") && r2.isSet("a") && !r2.isSet("b"), "option sets are independent");
	bool threw = false;
	try {
		Options::Readable r3(w, "a,c");
	} catch (RuntimeError&) {
		threw = true;
	}
	psx_assert(threw, "unregistered option rejected");
}

// long lists
PSX_CASE(large)
{
	size_t n = psx_choose("options", 2) ? 18 : 70, mode = psx_choose("mode", 3), missing = psx_choose("missing", 3) * (n / 2);
	Vector<String>::Type reg;
	std::string s;
	std::vector<std::string> all;
	for (size_t i = 0; i < n; ++i) {
		std::string o = "option" + std::string(i % 4, 'x') + std::to_string(i);
		all.push_back(o);
		if (i != missing)
			reg.push_back(o);
		if (i % 3)
			s += (s.empty() ? "" : i % 5 ? "," : ",,") + o;
	}
	std::string q = "option" + std::string(2, (char)psx_u8("q")) + std::to_string(n / 4 * 4 - 2);
	Options::Writeable w(reg, mode);
	bool known = missing >= n || missing % 3 == 0, threw = false;
	try {
		Options::Readable r(w, s);
		for (size_t i = 0; i < n; ++i)
			psx_assert(r.isSet(all[i]) == (mode != Options::Writeable::DISABLED && i % 3 != 0), "items are set unless disabled");
		psx_assert(r.isSet(q) == (mode != Options::Writeable::DISABLED && has(items(s), q)), "set exactly when it is a whole item");
	} catch (RuntimeError&) {
		threw = true;
	}
	psx_assert(threw == (mode == Options::Writeable::STRICT && !known), "an unregistered option is rejected when strict");
}
