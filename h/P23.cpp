// P23: operator specifications and bras/kets.
//@ src: PsimagLite.cpp
//@ bounds: every string of length 0..5 (quick) / 0..7 (thorough) over "c?'19[]" for operator specifications and site extraction; every string of length 0..6 / 0..7 over "<|>gsPQRX07" and every text of length 0..4 / 0..5 over arbitrary bytes for bras and kets; labels of up to 45 characters with sites of up to 26
//@ case large max_instr=60000000
//@ assume: a specification with more than one opening or closing bracket is outside the documented form (only its safety is checked)
#include "psx.h"
#include "PsimagLite.h"
#include "OneOperatorSpec.h"
#include "GetBraOrKet.h"
using namespace PsimagLite;

static bool number(const std::string& s, size_t& v)
{
	v = 0;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] < '0' || s[i] > '9')
			return false;
		v = v * 10 + (s[i] - '0');
	}
	return !s.empty() && v <= INT_MAX;
}
static void checkSpec(const std::string& s)
{
	std::string t = s, lab;
	bool tr = false;
	if (!t.empty() && t[t.size() - 1] == '\'') {
		tr = true;
		t = t.substr(0, t.size() - 1);
	}
	size_t q = 0, dof = 0;
	while (q < t.size() && t[q] != '?')
		++q;
	bool good = true;
	lab = t.substr(0, q);
	if (q < t.size())
		good = number(t.substr(q + 1), dof);
	bool ok = false;
	try {
		OneOperatorSpec o(s);
		ok = true;
		if (good) {
			psx_assert(o.label == lab, "label");
			psx_assert(o.dof == dof, "internal degree of freedom");
			psx_assert(o.transpose == tr, "transpose mark");
			psx_observe_str(o.label);
			psx_observe(o.dof);
		}
	} catch (RuntimeError&) {
	}
	psx_assert(ok == good, "ill-formed specifications, and only those, are errors");
}
PSX_CASE(spec)
{
	checkSpec(psx_string("c", psx_choose("n", PSX_T(6, 8)), "c?'19["));
}
PSX_CASE(spec_bytes)
{
	size_t n = psx_choose("n", PSX_T(5, 6));
	std::string s(n, ' ');
	for (size_t i = 0; i < n; ++i)
		s[i] = (char)psx_u8("c");
	checkSpec(s);
}
PSX_CASE(spec_number)
{
	std::string s = "ab?";
	size_t n = 1 + psx_choose("digits", 5);
	for (size_t i = 0; i < n; ++i)
		s += (char)psx_range("d", '0', '9');
	if (psx_choose("mark", 2))
		s += '\'';
	checkSpec(s);
}
PSX_CASE(site)
{
	std::string s = psx_string("c", psx_choose("n", PSX_T(6, 8)), "c[]1?");
	size_t o = 0, c = 0, oi = 0, ci = 0;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '[') {
			++o;
			oi = i;
		}
		if (s[i] == ']') {
			++c;
			ci = i;
		}
	}
	bool ok = false;
	std::string root, site;
	bool hasSite = false;
	try {
		OneOperatorSpec::SiteSplit r = OneOperatorSpec::extractSiteIfAny(s);
		ok = true;
		root = r.root;
		site = r.siteString;
		hasSite = r.hasSiteString;
	} catch (RuntimeError&) {
	}
	if (o > 1 || c > 1)
		return;
	bool good = o == c && (o == 0 || oi < ci);
	psx_assert(ok == good, "unmatched brackets, and only those, are errors");
	if (!ok)
		return;
	psx_assert(hasSite == (o == 1), "site given");
	if (o == 0)
		psx_assert(root == s && site.empty(), "nothing to extract");
	else {
		psx_assert(root == s.substr(0, oi) + s.substr(ci + 1), "the text outside the brackets");
		psx_assert(site == s.substr(oi + 1, ci - oi - 1), "the text inside the brackets");
	}
	psx_observe_str(root);
}
PSX_CASE(site_custom)
{
	// brackets of the caller's choice
	std::string s = psx_string("c", psx_choose("n", PSX_T(5, 6)), "c(){");
	size_t o = std::count(s.begin(), s.end(), '('), c = std::count(s.begin(), s.end(), ')');
	psx_assume(o <= 1 && c <= 1);
	bool ok = false;
	try {
		OneOperatorSpec::SiteSplit r = OneOperatorSpec::extractSiteIfAny(s, '(', ')');
		ok = true;
		psx_assert(r.hasSiteString == (o == 1), "site given");
		if (o)
			psx_assert(r.root.size() + r.siteString.size() + 2 == s.size() && r.root + "(" + r.siteString + ")" != "", "parts");
	} catch (RuntimeError&) {
	}
	psx_assert(ok == (o == c && s.find('(') <= s.find(')')), "well-formed");
}
PSX_CASE(number)
{
	size_t n = psx_choose("n", PSX_T(5, 7));
	std::string s(n, ' ');
	for (size_t i = 0; i < n; ++i)
		s[i] = (char)psx_u8("c");
	size_t v = 0, r = 0;
	bool good = number(s, v), ok = false;
	psx_assert(OneOperatorSpec::isNonNegativeInteger(s) == good, "digits only");
	try {
		r = OneOperatorSpec::strToNumberOrFail(s);
		ok = true;
	} catch (RuntimeError&) {
	}
	psx_assert(ok == good, "anything but digits is an error");
	psx_assert(!ok || r == v, "value");
}
struct Vec {
	bool good, ket;
	char kind; // E P R
	size_t first, second;
	std::string text;
};
// letter n, advancing i
static bool item(const std::string& t, size_t& i, size_t& v)
{
	size_t j = i + 1;
	while (j < t.size() && t[j] >= '0' && t[j] <= '9')
		++j;
	bool ok = number(t.substr(i + 1, j - i - 1), v);
	i = j;
	return ok;
}
static Vec spell(const std::string& s)
{
	Vec r = { false, true, 'E', 0, 0, s };
	if (s.size() < 2)
		return r;
	if (s.size() > 2) {
		char a = s[0], b = s[s.size() - 1];
		if (a == '|' && b == '>')
			r.text = s.substr(1, s.size() - 2);
		else if (a == '<' && b == '|') {
			r.text = s.substr(1, s.size() - 2);
			r.ket = false;
		}
	}
	const std::string& t = r.text;
	if (t.size() < 2)
		return r;
	if (t == "gs" || t == "time") {
		r.kind = t == "gs" ? 'E' : 'P';
		r.good = true;
		return r;
	}
	size_t i = 0;
	if (t[0] == 'P' || t[0] == 'Q' || t[0] == 'R') {
		r.kind = t[0] == 'Q' ? 'E' : t[0];
		if (!item(t, i, r.first))
			return r;
	}
	if (i < t.size() && r.kind != 'R') {
		if (t[i] != 'X' || !item(t, i, r.second))
			return r;
	}
	r.good = i == t.size();
	return r;
}
static void checkVec(const std::string& s)
{
	Vec e = spell(s);
	bool ok = false;
	try {
		GetBraOrKet g(s);
		ok = true;
		if (e.good) {
			psx_assert(g.isKet() == e.ket, "bra or ket");
			psx_assert(g.toString() == e.text, "the text inside the marks");
			psx_assert(g.isPvector() == (e.kind == 'P') && g.isRvector() == (e.kind == 'R'), "kind");
			psx_observe_str(g.toString());
			size_t n = 0;
			bool t = false;
			try {
				n = g.pIndex();
			} catch (RuntimeError&) {
				t = true;
			}
			psx_assert(t == (e.kind == 'E'), "index of an auxiliary vector");
			if (e.kind == 'E') {
				psx_assert(g.sectorIndex() == e.first, "sector");
				psx_assert(g.levelIndex() == e.second, "level");
			} else {
				psx_assert(n == e.first, "index");
				for (int which = 0; which < 2; ++which) {
					bool refused = false;
					try {
						if (which)
							g.sectorIndex();
						else
							g.levelIndex();
					} catch (RuntimeError&) {
						refused = true;
					}
					psx_assert(refused, "auxiliary vectors have no sector and level");
				}
			}
		}
	} catch (RuntimeError&) {
	}
	psx_assert(ok == e.good, "ill-formed specifications, and only those, are errors");
}
PSX_CASE(braket)
{
	checkVec(psx_string("c", psx_choose("n", PSX_T(6, 7)), "<|>gsPQRX07"));
}
PSX_CASE(braket_marked)
{
	// inside proper marks
	std::string t = psx_string("c", psx_choose("n", PSX_T(5, 6)), "<|>gsPQRX07");
	checkVec(psx_choose("bra", 2) ? "<" + t + "|" : "|" + t + ">");
}
PSX_CASE(braket_bytes)
{
	size_t n = psx_choose("n", PSX_T(5, 6));
	std::string s(n, ' ');
	for (size_t i = 0; i < n; ++i)
		s[i] = (char)psx_u8("c");
	checkVec(s);
}
PSX_CASE(braket_numbers)
{
	size_t k = psx_choose("kind", 5);
	std::string s = "|";
	const char* l = "PQRX";
	size_t n = 1 + psx_choose("digits", PSX_T(2, 4));
	s += k == 4 ? 'Q' : l[k];
	for (size_t i = 0; i < n; ++i)
		s += (char)psx_range("d", '0', '9');
	if (k == 4) {
		s += 'X';
		for (size_t i = 0; i < 2; ++i)
			s += (char)psx_range("d", '0', '9');
	}
	checkVec(s + ">");
}
PSX_CASE(braket_time)
{
	size_t k = psx_choose("form", 3);
	std::string s = "time";
	size_t p = psx_choose("position", 5);
	if (p < 4)
		s[p] = (char)psx_u8("c");
	checkVec(k == 0 ? s : k == 1 ? "|" + s + ">" : "<" + s + "|");
}

// long labels, sites and numbers
PSX_CASE(large)
{
	std::string lab(5 + psx_choose("length", 3) * 20, 'c');
	for (size_t i = 0; i < lab.size(); ++i)
		lab[i] = "cdownX_up"[(i * 5) % 9];
	lab[lab.size() / 2] = (char)psx_range("c", 'a', 'z');
	std::string s = lab;
	if (psx_choose("dof", 2))
		s += "?" + std::string(1, (char)psx_range("d", '1', '9')) + "07";
	if (psx_choose("mark", 2))
		s += "'";
	checkSpec(s);
	std::string site = "site+" + std::string(psx_choose("long site", 2) * 20 + 1, '1'), t = lab + "[" + site + "]" + s.substr(lab.size());
	OneOperatorSpec::SiteSplit r = OneOperatorSpec::extractSiteIfAny(t);
	psx_assert(r.hasSiteString, "site given");
	psx_assert(r.root == s, "the text outside the brackets");
	psx_assert(r.siteString == site, "the text inside the brackets");
}
