// P43: progress messages, their buffer, and the measurements they report.
//@ src: PsimagLite.cpp ProgressIndicator.cpp Concurrency.cpp MpiNo.cpp
//@ bounds: up to 3/4 messages of 0..3/4 arbitrary bytes, through the three kinds of printing, threads 0, 1 and 9, with and without buffering; a message holder used up to 3/4 times; courses of up to 5/7 signals and messages; memory tables of two entries, with arbitrary names and values of up to 3/4 bytes out of five, any one looked for; every pair of times of 0..2^40 seconds; reports of the memory in use among up to 3 messages; scopes ended explicitly, by leaving or both
//@ assume: the clock in the prefix of a message is not looked at; the process has rank 0 (other ranks: P38)
#include "psx.h"
#include "PsimagLite.h"
#include "ProgressIndicator.h"
#include "Profiling.h"
#include <sstream>
using namespace PsimagLite;

static String bytes(const char* name, size_t n)
{
	String s;
	for (size_t i = 0; i < n; ++i)
		s += (char)psx_range(name, 1, 255);
	return s;
}
static bool digit(char c) { return c >= '0' && c <= '9'; }
// takes "caller [clock]: " off the front of s
static void prefix(String& s, const String& caller)
{
	psx_assert(s.size() >= caller.size() + 2, "a message starts with its caller");
	bool ok = true;
	for (size_t i = 0; i < caller.size(); ++i)
		ok &= s[i] == caller[i];
	psx_assert(ok, "a message starts with its caller");
	size_t i = caller.size();
	psx_assert(s[i] == ' ' && s[i + 1] == '[', "the clock follows the caller");
	i += 2;
	size_t from = i;
	while (i < s.size() && (digit(s[i]) || s[i] == '.'))
		++i;
	psx_assert(i > from && i + 3 <= s.size() && s[i] == ']' && s[i + 1] == ':' && s[i + 2] == ' ', "the clock is in brackets");
	s = s.substr(i + 3);
}
static void text(String& s, const String& t, const char* what)
{
	psx_assert(s.size() >= t.size(), what);
	bool ok = true;
	for (size_t i = 0; i < t.size(); ++i)
		ok &= s[i] == t[i];
	psx_assert(ok, what);
	s = s.substr(t.size());
}
static const SizeType THREADS[] = { 0, 1, 9 };

static void said(SizeType how, const ProgressIndicator& p, const String& m, std::ostream& os)
{
	if (how == 0)
		p.printline(m, os);
	else if (how == 1)
		p.print(m, os);
	else {
		OstringStream s(6);
		s() << m;
		p.printline(s, os);
	}
}
PSX_CASE(messages)
{
	SizeType thread = THREADS[psx_choose("thread", 3)], how = psx_choose("how", 3), n = 1 + psx_choose("messages", PSX_T(3, 4));
	String caller = psx_choose("named", 2) ? "Solver" : "a b";
	ProgressIndicator p(caller, thread);
	std::ostringstream os;
	os.precision(9);
	std::vector<String> m;
	for (SizeType i = 0; i < n; ++i) {
		m.push_back(bytes("message", i == 0 ? psx_choose("length", PSX_T(4, 5)) : i));
		said(how, p, m[i], os);
	}
	String s = os.str();
	for (SizeType i = 0; i < n && thread == 0; ++i) {
		prefix(s, caller);
		text(s, m[i] + (how == 1 ? "" : "\n"), "the message is complete");
	}
	psx_assert(s.empty(), thread ? "only the main thread reports" : "messages appear once");
	psx_assert(os.precision() == 9, "the precision of the stream stays");
}
// one holder for several messages
PSX_CASE(holder)
{
	ProgressIndicator p("Holder");
	std::ostringstream os;
	OstringStream msg(5);
	SizeType n = 1 + psx_choose("messages", PSX_T(3, 4));
	std::vector<String> m;
	for (SizeType i = 0; i < n; ++i) {
		m.push_back(bytes("message", psx_choose("length", 4)));
		msg() << m[i];
		p.printline(msg, os);
	}
	String s = os.str();
	for (SizeType i = 0; i < n; ++i) {
		prefix(s, "Holder");
		text(s, m[i] + "\n", "a holder used again holds just the new message");
	}
	psx_assert(s.empty(), "nothing else");
}
static String fileOf()
{
	char b[2000];
	uint64_t n = psx_get_file(("buffer" + ttos(getpid()) + ".txt").c_str(), b, sizeof b);
	psx_assert(n <= sizeof b, "the buffer is written");
	return String(b, b + n);
}
PSX_CASE(buffer)
{
	ProgressIndicator p("Buffered"), other("Other", 3);
	std::ostringstream os, shown;
	bool active = false;
	std::vector<String> kept;
	std::vector<SizeType> kinds;
	SizeType n = 1 + psx_choose("events", PSX_T(5, 7));
	for (SizeType i = 0; i < n; ++i) {
		SizeType e = psx_choose("event", 2);
		if (e == 0) {
			ProgressIndicator::updateBuffer(10);
			if (active) {
				String s = fileOf();
				for (SizeType k = 0; k < kept.size(); ++k) {
					prefix(s, "Buffered");
					text(s, kept[k] + (kinds[k] == 1 ? "" : "\n"), "messages while buffering are in the buffer");
				}
				psx_assert(s == "\n", "and nothing else");
				kept.clear();
				kinds.clear();
			}
			active = !active;
			continue;
		}
		String m = bytes("message", 1 + i % 3);
		SizeType how = (i + n) % 3;
		said(how, p, m, os);
		said(how, other, m, os);
		if (active) {
			kept.push_back(m);
			kinds.push_back(how);
		}
	}
	if (active)
		ProgressIndicator::updateBuffer(10);
}
static bool isBlank(char c) { return (c == ' ') | (c == '\t'); }
PSX_CASE(memory)
{
	String names[2], values[2], data;
	for (int i = 0; i < 2; ++i) {
		names[i] = i ? "VmSize:" : "VmPeak:";
		values[i] = psx_string(i ? "second" : "first", i ? PSX_T(2, 3) : psx_choose("length", PSX_T(4, 5)), " \t7k:");
		data += "Name:\tx\n" + names[i] + values[i] + "\n";
	}
	psx_put_file("status.txt", data.c_str(), data.size());
	MemoryUsage m("status.txt");
	SizeType which = psx_choose("which", 3);
	if (which == 2) {
		psx_assert(m.findEntry("VmSwap:") == "NOT_FOUND", "entries that are not there");
		return;
	}
	String s = m.findEntry(names[which]), v = values[which];
	while (!v.empty() && isBlank(v[0]))
		v = v.substr(1);
	psx_assert(s == v, "the value of an entry, without the blanks before it");
	// a file that changes
	String later = names[which] + "9\n";
	psx_put_file("status.txt", later.c_str(), later.size());
	psx_assert(m.findEntry(names[which]) == s, "values are those of the last update");
	m.update();
	psx_assert(m.findEntry(names[which]) == "9", "values after an update");
	psx_assert(m.findEntry(names[1 - which]) == "NOT_FOUND", "an update drops what is gone");
}
PSX_CASE(times)
{
	typedef MemoryUsage::TimeHandle T;
	uint64_t s1 = psx_range("seconds", 0, 1ull << 40), s2 = psx_range("seconds", 0, 1ull << 40);
	uint64_t u1 = psx_range("micro", 0, 999999), u2 = psx_range("micro", 0, 999999);
	T a(s1, u1), b(s2, u2);
	psx_assert(a.seconds() == (time_t)s1 && a.useconds() == (suseconds_t)u1, "parts of a time");
	T d = a - b;
	int64_t all = d.seconds() * 1000000l + d.useconds(), expected = (int64_t)(s1 * 1000000 + u1) - (int64_t)(s2 * 1000000 + u2);
	psx_assert(all == expected, "difference of times");
	b += d;
	psx_assert(b.seconds() * 1000000l + b.useconds() == (int64_t)(s1 * 1000000 + u1), "sum of times");
	b += a;
	psx_assert(b.seconds() * 1000000l + b.useconds() == 2 * (int64_t)(s1 * 1000000 + u1), "sum of times");
	static const long SEC[] = { 0, 1, 59, 86400, 1700000000 }, MICRO[] = { 0, 1, 999, 1000, 500000, 999999 };
	long s = SEC[psx_choose("s", 5)], u = MICRO[psx_choose("u", 6)];
	double r = T(s, u).millis(), e = r - (s + u * 1e-6);
	psx_assert(e < 1e-6 && e > -1e-6, "a time as a number of seconds");
}
PSX_CASE(scope)
{
	std::ostringstream os;
	String label = bytes("label", 2), last = bytes("last", 2);
	SizeType labelled = psx_choose("labelled", 2), ends = psx_choose("ends", 3);
	{
		Profiling* p = labelled ? new Profiling("Scope", label, os) : new Profiling("Scope", os);
		for (SizeType i = 0; i < ends; ++i)
			p->end(last);
		delete p;
	}
	String s = os.str();
	prefix(s, "Scope");
	text(s, labelled ? "starting clock " + label + "\n" : String("starting clock\n"), "start of a scope");
	prefix(s, "Scope");
	text(s, "stopping clock " + (ends ? last : String("")) + "\n", "end of a scope");
	psx_assert(s.empty(), "a scope ends once");
}
// the report of the memory in use is a message like any other
static void course(String s, const std::vector<String>& m, SizeType report, const char* end)
{
	for (SizeType i = 0; i <= m.size(); ++i) {
		if (i == report) {
			prefix(s, "Reports");
			text(s, "Current virtual memory is ", "the memory in use");
			size_t x = s.find(" maximum was "), y = s.find("\n");
			psx_assert(x != String::npos && y != String::npos && x < y, "and the greatest");
			s = s.substr(y + 1);
		}
		if (i == m.size())
			break;
		prefix(s, "Reports");
		text(s, m[i] + "\n", "messages appear once and in order");
	}
	psx_assert(s == end, "and nothing else");
}
PSX_CASE(memory_report)
{
	ProgressIndicator p("Reports");
	std::ostringstream os;
	SizeType active = psx_choose("buffering", 2), report = psx_choose("before", 3), n = report + psx_choose("after", 2);
	std::vector<String> m;
	for (SizeType i = 0; i < n; ++i) {
		char c = (char)psx_range("message", 'A', 'z');
		m.push_back(String(1, c));
	}
	std::streambuf* old = std::cout.rdbuf(os.rdbuf());
	if (active)
		ProgressIndicator::updateBuffer(10);
	for (SizeType i = 0; i <= n; ++i) {
		if (i == report)
			p.printMemoryUsage();
		if (i < n)
			p.printline(m[i], std::cout);
	}
	if (active)
		ProgressIndicator::updateBuffer(10);
	std::cout.rdbuf(old);
	course(os.str(), m, report, "");
	if (active)
		course(fileOf(), m, report, "\n");
}
