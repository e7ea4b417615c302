// Harness interface.  The same harness source is compiled to bitcode for the symbolic executor
// and natively (with psx_native.cpp) for replaying counterexamples and validating samples.
#pragma once
#include <pthread.h>
#include <cassert>
#include <climits>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cctype>
#include <ctime>
#include <cmath>
#include <algorithm>
#include <stdexcept>
#include <cstddef>
#include <string>
#include <vector>
extern "C" {
uint64_t psx_in(const char* name, uint64_t bits, uint64_t lo, uint64_t hi);
int64_t psx_in_s(const char* name, int64_t lo, int64_t hi);
uint64_t psx_choose(const char* name, uint64_t n);
void psx_assume_(uint64_t c);
void psx_assert_(uint64_t c, const char* msg);
void psx_cover(const char* name);
void psx_observe(uint64_t v);
void psx_observe_f(double v);
uint64_t psx_concrete(uint64_t v);
void psx_abort_ok(int on);
uint64_t psx_is_symbolic(uint64_t v);
void psx_stop();
void psx_trace(const char* name, uint64_t v);
void psx_yield();
void psx_put_file(const char* name, const char* data, uint64_t n);
uint64_t psx_get_file(const char* name, char* buf, uint64_t cap); // length, or ~0
}
#define psx_assume(c) psx_assume_((uint64_t)(c))
#define PSX_STR2(x) #x
#define PSX_STR(x) PSX_STR2(x)
#define psx_assert(c, msg) psx_assert_((uint64_t)(c), msg)

#ifdef PSX_THOROUGH
#define PSX_T(quick, thorough) (thorough)
#else
#define PSX_T(quick, thorough) (quick)
#endif

inline uint64_t psx_u64(const char* n) { return psx_in(n, 64, 0, ~0ull); }
inline uint32_t psx_u32(const char* n) { return (uint32_t)psx_in(n, 32, 0, 0xffffffffull); }
inline uint8_t psx_u8(const char* n) { return (uint8_t)psx_in(n, 8, 0, 255); }
inline bool psx_bool(const char* n) { return psx_in(n, 1, 0, 1) != 0; }
inline uint64_t psx_range(const char* n, uint64_t lo, uint64_t hi) { return psx_in(n, 64, lo, hi); }
// an arbitrary integer in [lo,hi] as a double: sums and products of such values are exact
inline double psx_dbl(const char* n, int lo, int hi) { return (double)(int)psx_in_s(n, lo, hi); }
inline int psx_int(const char* n, int lo, int hi) { return (int)psx_in_s(n, lo, hi); }
// an arbitrary string of the given length over an alphabet
inline std::string psx_string(const char* n, size_t len, const char* alphabet)
{
	size_t k = __builtin_strlen(alphabet);
	std::string s(len, ' ');
	for (size_t i = 0; i < len; ++i) {
		uint64_t c = psx_in(n, 8, 0, k - 1);
		s[i] = alphabet[c];
	}
	return s;
}
// the same with every character enumerated (one path per string)
inline std::string psx_enum_string(const char* n, size_t len, const char* alphabet)
{
	size_t k = __builtin_strlen(alphabet);
	std::string s(len, ' ');
	for (size_t i = 0; i < len; ++i)
		s[i] = alphabet[psx_choose(n, k)];
	return s;
}
inline void psx_observe_str(const std::string& s)
{
	psx_observe(s.size());
	for (size_t i = 0; i < s.size(); ++i)
		psx_observe((uint64_t)(uint8_t)s[i]);
}

#ifdef PSX_NATIVE
struct psx_reg {
	const char* name;
	void (*f)();
	psx_reg* next;
	psx_reg(const char* n, void (*g)());
};
#define PSX_CASE(NAME)                                                  \
	extern "C" void psx_case_##NAME();                                  \
	static psx_reg psx_reg_##NAME(#NAME, &psx_case_##NAME);             \
	extern "C" void psx_case_##NAME()
#else
#define PSX_CASE(NAME) extern "C" void psx_case_##NAME()
#endif
