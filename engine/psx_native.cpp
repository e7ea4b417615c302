// Native side of the harness interface: replays one recorded assignment against the real code
// compiled with the real standard library.
//   prog CASE INPUTFILE [SCHEDFILE]
// exit 0: finished normally; 77: a psx_assert failed; 78: an assumption was false
#include "psx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <exception>
#include <unistd.h>
#include <fstream>
#include <sstream>
static psx_reg* g_head = nullptr;
psx_reg::psx_reg(const char* n, void (*g)())
    : name(n)
    , f(g)
    , next(g_head)
{
	g_head = this;
}
static std::vector<uint64_t> g_in;
static size_t g_pos = 0;
static bool g_abortOk = false;
static FILE* g_out = nullptr;
static void fin(int code)
{
	if (g_out)
		fflush(g_out);
	_exit(code);
}
static uint64_t next(const char* n)
{
	if (g_pos >= g_in.size()) {
		fprintf(stderr, "PSX: input %s beyond the recorded ones\n", n);
		fin(79);
	}
	return g_in[g_pos++];
}
extern "C" {
uint64_t psx_in(const char* n, uint64_t, uint64_t lo, uint64_t hi)
{
	uint64_t x = next(n);
	if (x < lo || x > hi) {
		fprintf(stderr, "PSX: input %s out of range\n", n);
		fin(79);
	}
	fprintf(stderr, "PSX-INPUT %s = %llu\n", n, (unsigned long long)x);
	return x;
}
int64_t psx_in_s(const char* n, int64_t lo, int64_t hi)
{
	int64_t x = (int64_t)next(n);
	if (x < lo || x > hi) {
		fprintf(stderr, "PSX: input %s out of range\n", n);
		fin(79);
	}
	fprintf(stderr, "PSX-INPUT %s = %lld\n", n, (long long)x);
	return x;
}
uint64_t psx_choose(const char* n, uint64_t k)
{
	uint64_t x = next(n);
	if (x >= k) {
		fprintf(stderr, "PSX: choice %s out of range\n", n);
		fin(79);
	}
	fprintf(stderr, "PSX-CHOICE %s = %llu of %llu\n", n, (unsigned long long)x, (unsigned long long)k);
	return x;
}
void psx_assume_(uint64_t c)
{
	if (!c) {
		fprintf(stderr, "PSX: assumption does not hold\n");
		fin(78);
	}
}
void psx_assert_(uint64_t c, const char* msg)
{
	if (!c) {
		fprintf(stderr, "PSX-ASSERT-FAILED: %s\n", msg);
		fin(77);
	}
}
void psx_cover(const char*) { }
void psx_observe(uint64_t v)
{
	if (g_out)
		fprintf(g_out, "%llu\n", (unsigned long long)v);
}
void psx_observe_f(double v)
{
	if (g_out)
		fprintf(g_out, "%.17g\n", v + 0.0);
}
uint64_t psx_concrete(uint64_t v) { return v; }
void psx_abort_ok(int on) { g_abortOk = on != 0; }
uint64_t psx_is_symbolic(uint64_t) { return 0; }
void psx_stop() { fin(0); }
void psx_trace(const char*, uint64_t) { }
void psx_put_file(const char* name, const char* data, uint64_t n)
{
	FILE* f = fopen(name, "w");
	if (f) {
		fwrite(data, 1, n, f);
		fclose(f);
	}
}
uint64_t psx_get_file(const char* name, char* buf, uint64_t cap)
{
	FILE* f = fopen(name, "r");
	if (!f)
		return ~0ull;
	uint64_t n = fread(buf, 1, cap, f);
	fclose(f);
	return n;
}
}
static void onAbort(int)
{
	if (g_abortOk)
		fin(0);
	signal(SIGABRT, SIG_DFL);
}
#ifndef PSX_SCHED
extern "C" void psx_yield() { }
static void loadSched(const char*) { }
#else
#include "psx_sched.inc"
#endif
int main(int argc, char** argv)
{
	if (argc < 3) {
		for (psx_reg* r = g_head; r; r = r->next)
			puts(r->name);
		return 0;
	}
	std::ifstream f(argv[2]);
	unsigned long long x;
	while (f >> x)
		g_in.push_back(x);
	if (const char* o = getenv("PSX_OBS"))
		g_out = fopen(o, "w");
	if (argc > 3)
		loadSched(argv[3]);
	char dir[] = "psxrunXXXXXX";
	if (getenv("PSX_TMP") && (chdir(getenv("PSX_TMP")) || !mkdtemp(dir) || chdir(dir)))
		return 82;
	signal(SIGABRT, onAbort);
	for (psx_reg* r = g_head; r; r = r->next)
		if (!strcmp(r->name, argv[1])) {
			try {
				r->f();
			} catch (std::exception& e) {
				fprintf(stderr, "PSX-UNCAUGHT: %s\n", e.what());
				fin(80);
			} catch (...) {
				fprintf(stderr, "PSX-UNCAUGHT\n");
				fin(80);
			}
			if (g_pos != g_in.size())
				fprintf(stderr, "PSX: %zu inputs not consumed\n", g_in.size() - g_pos);
			fin(0);
		}
	fprintf(stderr, "PSX: no case %s\n", argv[1]);
	return 81;
}
