// P44: redirected standard output.
//@ src: PsimagLite.cpp
//@ bounds: up to 1/2 pieces, of 0..3 arbitrary bytes or a number of 0..120, printed before and after the redirection, through << and write; the file new, or there with up to 3 arbitrary bytes, replaced or continued; buffered or not; a redirection that is refused (no such folder, or a second one) first, then and not at all
//@ assume: the file is read once the output has been flushed, as at the end of the process; the restoring at the exit of the process is run on the real code only
#include "psx.h"
#include "RedirectOutput.hh"
#include <sstream>
using namespace PsimagLite;
typedef unsigned long Sz;

static std::string bytes(Sz n)
{
	std::string s;
	for (Sz i = 0; i < n; ++i)
		s += (char)psx_range("c", 1, 255);
	return s;
}
static std::string contents(const char* name)
{
	std::ifstream f(name);
	std::stringstream s;
	char c;
	while (f.get(c))
		s.put(c);
	return s.str();
}
static void same(const std::string& a, const std::string& b, const char* what)
{
	psx_assert(a.size() == b.size(), what);
	bool ok = a.size() == b.size();
	for (Sz i = 0; ok && i < a.size(); ++i)
		psx_assert(a[i] == b[i], what);
}
// what standard output goes to when it isn't redirected; stays until the end of the process
static std::stringstream& terminal()
{
	static std::stringstream& s = *new std::stringstream;
	return s;
}
static std::string print(Sz top)
{
	std::string all;
	Sz n = psx_choose("pieces", top + 1);
	for (Sz i = 0; i < n; ++i) {
		Sz k = psx_choose("length", 5);
		if (k == 4) {
			unsigned long v = psx_range("n", 0, 120);
			std::cout << v;
			if (v > 99)
				all += (char)('0' + v / 100);
			if (v > 9)
				all += (char)('0' + v / 10 % 10);
			all += (char)('0' + v % 10);
			continue;
		}
		std::string s = bytes(k);
		if (i % 2)
			std::cout.write(s.data(), s.size());
		else
			std::cout << s;
		all += s;
	}
	return all;
}
static bool refused(const char* name)
{
	try {
		RedirectOutput::doIt(name, std::ofstream::out, false);
	} catch (std::exception&) {
		return true;
	}
	return false;
}
PSX_CASE(redirected)
{
	std::cout.rdbuf(terminal().rdbuf());
	RedirectOutput::setAppName("app", "me");
	RedirectOutput r;
	psx_assert(!r.hasBeenRedirected(), "not redirected at first");
	Sz before = psx_choose("file before", 3);
	std::string old = before == 0 ? "" : bytes(before == 1 ? 0 : 3);
	if (before)
		psx_put_file("out.txt", old.data(), old.size());
	std::string first = print(1);
	if (psx_choose("refused first", 2)) {
		psx_assert(refused("nosuchfolder/out.txt"), "a file that cannot be opened is an error");
		psx_assert(!r.hasBeenRedirected(), "a refused redirection has no effect");
		first += print(1);
	}
	bool append = psx_choose("continued", 2), unbuffered = psx_choose("unbuffered", 2);
	RedirectOutput::doIt("out.txt", append ? std::ofstream::app : std::ofstream::out, unbuffered);
	psx_assert(r.hasBeenRedirected(), "redirected");
	std::string want = (append ? old : "") + print(PSX_T(1, 2));
	if (unbuffered)
		same(contents("out.txt"), want, "unbuffered output is in the file at once");
	if (psx_choose("refused later", 2)) {
		psx_assert(refused("other.txt"), "a second redirection is an error");
		want += print(1);
	}
	std::cout.flush();
	same(contents("out.txt"), want, "all that is printed afterwards is in the file, in order, and complete");
	same(terminal().str(), first, "what was printed before is where it was, and nothing else");
	psx_assert(r.hasBeenRedirected() && std::cout.good(), "output goes on");
}
