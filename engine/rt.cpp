// The parts of the C and C++ run-time libraries that live in shared objects, as source, so that
// the symbolic executor sees them as ordinary code.
#include <stdexcept>
#include <typeinfo>
#include <functional>
#include <map>
#include <list>
#include <unordered_map>
#include <string>
#include <thread>
#include <future>
#include <optional>
#include <variant>
#include <iostream>
#include <system_error>
#include <cstring>
#include <cstdlib>
#include <cctype>
#include <cerrno>
#include <pthread.h>
#include <sched.h>
#include "psx.h"

// ---------------------------------------------------------------- C library
extern "C" {
size_t strlen(const char* s)
{
	size_t n = 0;
	while (s[n])
		++n;
	return n;
}
size_t strnlen(const char* s, size_t m)
{
	size_t n = 0;
	while (n < m && s[n])
		++n;
	return n;
}
int strcmp(const char* a, const char* b)
{
	while (*a && *a == *b) {
		++a;
		++b;
	}
	return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int strcoll(const char* a, const char* b) { return strcmp(a, b); }
int strncmp(const char* a, const char* b, size_t n)
{
	for (; n; --n, ++a, ++b) {
		if (*a != *b)
			return (int)(unsigned char)*a - (int)(unsigned char)*b;
		if (!*a)
			return 0;
	}
	return 0;
}
#undef strchr
#undef strrchr
#undef memchr
#undef strstr
char* psx_strchr(const char* s, int c) __asm__("strchr");
char* psx_strchr(const char* s, int c)
{
	for (;; ++s) {
		if (*s == (char)c)
			return (char*)s;
		if (!*s)
			return 0;
	}
}
char* psx_strrchr(const char* s, int c) __asm__("strrchr");
char* psx_strrchr(const char* s, int c)
{
	char* r = 0;
	for (;; ++s) {
		if (*s == (char)c)
			r = (char*)s;
		if (!*s)
			return r;
	}
}
void* psx_memchr_fast(const void*, int, size_t);
void* psx_memchr(const void* p, int c, size_t n) __asm__("memchr");
void* psx_memchr(const void* p, int c, size_t n)
{
	void* r = psx_memchr_fast(p, c, n);
	if (r != (void*)~0UL)
		return r;
	const unsigned char* s = (const unsigned char*)p;
	for (; n; --n, ++s)
		if (*s == (unsigned char)c)
			return (void*)s;
	return 0;
}
char* psx_strstr(const char* h, const char* n) __asm__("strstr");
char* psx_strstr(const char* h, const char* n)
{
	for (;; ++h) {
		size_t i = 0;
		while (n[i] && h[i] == n[i])
			++i;
		if (!n[i])
			return (char*)h;
		if (!*h)
			return 0;
	}
}
char* strcpy(char* d, const char* s)
{
	char* r = d;
	while ((*d++ = *s++)) { }
	return r;
}
char* strncpy(char* d, const char* s, size_t n)
{
	size_t i = 0;
	for (; i < n && s[i]; ++i)
		d[i] = s[i];
	for (; i < n; ++i)
		d[i] = 0;
	return d;
}
char* strcat(char* d, const char* s)
{
	strcpy(d + strlen(d), s);
	return d;
}
char* strdup(const char* s)
{
	size_t n = strlen(s) + 1;
	char* d = (char*)malloc(n);
	for (size_t i = 0; i < n; ++i)
		d[i] = s[i];
	return d;
}
char* strerror(int) { return (char*)"error"; }
char* getenv(const char*) { return 0; }
int system(const char*) { return 0; }
int access(const char* name, int) { return psx_file_find(name) ? 0 : -1; }
int unlink(const char*) { return 0; }
// written without short-circuit operators so that a symbolic character does not fork
int isdigit(int c) { return (unsigned)c - '0' < 10u; }
int isspace(int c) { return (c == ' ') | ((unsigned)c - 9 < 5u); }
int isupper(int c) { return (unsigned)c - 'A' < 26u; }
int islower(int c) { return (unsigned)c - 'a' < 26u; }
int isalpha(int c) { return isupper(c) | islower(c); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isprint(int c) { return (unsigned)c - 32 < 95u; }
int isgraph(int c) { return (unsigned)c - 33 < 94u; }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isxdigit(int c) { return isdigit(c) | ((unsigned)c - 'a' < 6u) | ((unsigned)c - 'A' < 6u); }
int iscntrl(int c) { return ((unsigned)c < 32u) | (c == 127); }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }

static bool psx_digits(const char* s, char** end, int base, unsigned long& v, bool& neg, bool& over)
{
	const char* p = s;
	while (isspace((unsigned char)*p))
		++p;
	neg = false;
	if (*p == '+' || *p == '-') {
		neg = *p == '-';
		++p;
	}
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) {
		p += 2;
		base = 16;
	} else if (base == 0)
		base = *p == '0' ? 8 : 10;
	v = 0;
	over = false;
	bool any = false;
	for (;; ++p) {
		unsigned char c = (unsigned char)*p;
		int d;
		if (c >= '0' && c <= '9')
			d = c - '0';
		else if (c >= 'a' && c <= 'z')
			d = c - 'a' + 10;
		else if (c >= 'A' && c <= 'Z')
			d = c - 'A' + 10;
		else
			break;
		if (d >= base)
			break;
		any = true;
		if (v > (~0UL - (unsigned long)d) / (unsigned long)base)
			over = true;
		else
			v = v * (unsigned long)base + (unsigned long)d;
	}
	if (end)
		*end = (char*)(any ? p : s);
	return any;
}
long strtol(const char* s, char** end, int base)
{
	unsigned long v;
	bool neg, over;
	if (!psx_digits(s, end, base, v, neg, over))
		return 0;
	if (over || v > 0x7fffffffffffffffUL + (neg ? 1 : 0)) {
		errno = ERANGE;
		return neg ? (long)0x8000000000000000UL : 0x7fffffffffffffffL;
	}
	return neg ? (long)(0UL - v) : (long)v;
}
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char* s, char** end, int base)
{
	unsigned long v;
	bool neg, over;
	if (!psx_digits(s, end, base, v, neg, over))
		return 0;
	if (over) {
		errno = ERANGE;
		return ~0UL;
	}
	return neg ? 0UL - v : v;
}
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long psx_isoc_strtol(const char* s, char** e, int b) __asm__("strtol");
long psx_isoc_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long psx_isoc_strtoul(const char* s, char** e, int b) __asm__("strtoul");
unsigned long psx_isoc_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
long psx_isoc_strtoll(const char* s, char** e, int b) __asm__("strtoll");
long psx_isoc_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long psx_isoc_strtoull(const char* s, char** e, int b) __asm__("strtoull");
unsigned long psx_isoc_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
int psx_atoi(const char* s) __asm__("atoi");
int psx_atoi(const char* s) { return (int)strtol(s, 0, 10); }
long psx_atol(const char* s) __asm__("atol");
long psx_atol(const char* s) { return strtol(s, 0, 10); }
// [sign] digits [. digits] with at most 15 digits, some of them symbolic: an integer divided by an exact
// power of ten, which is the correctly rounded value; everything else goes to the executor, which makes it concrete
double psx_number(const char* p, long* used)
{
	const char* q = p;
	bool neg = false, sym = false;
	if (*q == '+' || *q == '-') {
		neg = *q == '-';
		++q;
	}
	long n = 0;
	int digits = 0, frac = 0;
	while (*q >= '0' && *q <= '9') {
		if (psx_is_symbolic((unsigned long)*q))
			sym = true;
		n = n * 10 + (*q - '0');
		++digits;
		++q;
		if (digits > 15)
			return psx_parse_double(p, used);
	}
	if (digits == 1 && n == 0 && (*q == 'x' || *q == 'X'))
		return psx_parse_double(p, used);
	if (*q == '.') {
		const char* r = q + 1;
		while (*r >= '0' && *r <= '9') {
			if (psx_is_symbolic((unsigned long)*r))
				sym = true;
			n = n * 10 + (*r - '0');
			++digits;
			++frac;
			++r;
			if (digits > 15)
				return psx_parse_double(p, used);
		}
		if (digits)
			q = r;
	}
	if (digits && (*q == 'e' || *q == 'E')) {
		const char* r = q + 1;
		if (*r == '+' || *r == '-')
			++r;
		if (*r >= '0' && *r <= '9')
			return psx_parse_double(p, used);
	}
	if (!digits || !sym)
		return psx_parse_double(p, used);
	static const double tens[] = { 1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15 };
	*used = q - p;
	double v = (double)(neg ? -n : n);
	return frac ? v / tens[frac] : v;
}
double psx_strtod(const char* s, char** end) __asm__("strtod");
double psx_strtod(const char* s, char** end)
{
	// the significant span is found here; the value comes from the executor
	const char* p = s;
	while (isspace((unsigned char)*p))
		++p;
	long used = 0;
	double v = psx_number(p, &used);
	if (end)
		*end = (char*)(used ? p + used : s);
	return v;
}
double psx_atof(const char* s) __asm__("atof");
double psx_atof(const char* s) { return psx_strtod(s, 0); }
div_t div(int a, int b)
{
	div_t r;
	r.quot = a / b;
	r.rem = a % b;
	return r;
}
ldiv_t ldiv(long a, long b)
{
	ldiv_t r;
	r.quot = a / b;
	r.rem = a % b;
	return r;
}
lldiv_t lldiv(long long a, long long b)
{
	lldiv_t r;
	r.quot = a / b;
	r.rem = a % b;
	return r;
}
int psx_abs(int x) __asm__("abs");
int psx_abs(int x) { return x < 0 ? -x : x; }
long psx_labs(long x) __asm__("labs");
long psx_labs(long x) { return x < 0 ? -x : x; }
double psx_hypot(double x, double y) __asm__("hypot");
double psx_hypot2(double x, double y);
// given numbers as the C library has it, symbolic ones by the formula
double psx_hypot(double x, double y)
{
	unsigned long a, b;
	__builtin_memcpy(&a, &x, 8);
	__builtin_memcpy(&b, &y, 8);
	if (!psx_is_symbolic(a) && !psx_is_symbolic(b))
		return psx_hypot2(x, y);
	return __builtin_sqrt(x * x + y * y);
}
double cabs_psx(double x, double y) __asm__("cabs");
double cabs_psx(double x, double y) { return psx_hypot(x, y); }
// complex multiplication and division as emitted by the compiler for std::complex
_Complex double psx_muldc3(double a, double b, double c, double d) __asm__("__muldc3");
_Complex double psx_muldc3(double a, double b, double c, double d)
{
	_Complex double r;
	__real__ r = a * c - b * d;
	__imag__ r = a * d + b * c;
	return r;
}
_Complex double psx_divdc3(double a, double b, double c, double d) __asm__("__divdc3");
_Complex double psx_divdc3(double a, double b, double c, double d)
{
	_Complex double r;
	double n = c * c + d * d;
	__real__ r = (a * c + b * d) / n;
	__imag__ r = (b * c - a * d) / n;
	return r;
}
char __libc_single_threaded = 0;
void psx_rt_bad_alloc() { throw std::bad_alloc(); }
clock_t clock(void) { return 0; }
int gethostname(char* s, size_t n)
{
	if (n)
		s[0] = 0;
	return 0;
}
pid_t getpid(void) { return 1; }
int __sched_cpucount(size_t n, const cpu_set_t* c)
{
	int r = 0;
	for (size_t i = 0; i < n; ++i)
		r += __builtin_popcount(((const unsigned char*)c)[i]);
	return r;
}
char* ctime(const time_t*) { return (char*)"Thu Jan  1 00:00:00 1970\n"; }
char* psx_asctime(const struct tm*) __asm__("asctime");
char* psx_asctime(const struct tm*) { return (char*)"Thu Jan  1 00:00:00 1970\n"; }
struct tm* localtime(const time_t*)
{
	static struct tm t;
	return &t;
}
}

// ---------------------------------------------------------------- in-memory files
static psx_file* psx_files = 0;
extern "C" std::string* psx_file_find(const char* name)
{
	for (psx_file* f = psx_files; f; f = f->next)
		if (*f->name == name)
			return f->data;
	return 0;
}
extern "C" std::string* psx_file_create(const char* name)
{
	std::string* d = psx_file_find(name);
	if (d)
		return d;
	psx_file* f = new psx_file;
	f->name = new std::string(name);
	f->data = new std::string;
	f->next = psx_files;
	psx_files = f;
	return f->data;
}
extern "C" void psx_put_file(const char* name, const char* data, uint64_t n) { psx_file_create(name)->assign(data, n); }
extern "C" uint64_t psx_get_file(const char* name, char* buf, uint64_t cap)
{
	std::string* d = psx_file_find(name);
	if (!d)
		return ~0UL;
	for (uint64_t i = 0; i < cap && i < d->size(); ++i)
		buf[i] = (*d)[i];
	return d->size();
}
extern "C" int psx_remove(const char* name) __asm__("remove");
extern "C" int psx_remove(const char* name)
{
	for (psx_file** f = &psx_files; *f; f = &(*f)->next)
		if (*(*f)->name == name) {
			*f = (*f)->next;
			return 0;
		}
	return -1;
}

namespace {
struct NullBuf : std::streambuf {
	int_type overflow(int_type c) override { return c == -1 ? 0 : c; }
	std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
__attribute__((init_priority(110))) NullBuf psx_null;
std::streambuf psx_empty_base();
struct EmptyBuf : std::streambuf { };
__attribute__((init_priority(110))) EmptyBuf psx_empty;
}
namespace std {
__attribute__((init_priority(111))) ostream cout(&psx_null);
__attribute__((init_priority(111))) ostream cerr(&psx_null);
__attribute__((init_priority(111))) ostream clog(&psx_null);
__attribute__((init_priority(111))) istream cin(&psx_empty);
}

// ---------------------------------------------------------------- exceptions
namespace std {
static const char* psx_dup(const char* s, size_t n)
{
	char* p = (char*)malloc(n + 1);
	for (size_t i = 0; i < n; ++i)
		p[i] = s[i];
	p[n] = 0;
	return p;
}
__cow_string::__cow_string()
    : _M_p(psx_dup("", 0))
{
}
__cow_string::__cow_string(const std::string& s)
    : _M_p(psx_dup(s.data(), s.size()))
{
}
__cow_string::__cow_string(const char* s, size_t n)
    : _M_p(psx_dup(s, n))
{
}
__cow_string::__cow_string(const __cow_string& o) noexcept
    : _M_p(psx_dup(o._M_p, strlen(o._M_p)))
{
}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept
{
	_M_p = psx_dup(o._M_p, strlen(o._M_p));
	return *this;
}
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept
    : _M_p(psx_dup(o._M_p, strlen(o._M_p)))
{
}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept
{
	_M_p = psx_dup(o._M_p, strlen(o._M_p));
	return *this;
}

exception::~exception() noexcept { }
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept { }
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept { }
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept { }
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept { }
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_exception::~bad_exception() noexcept { }
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_function_call::~bad_function_call() noexcept { }
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

#define PSX_EXC(X)                                                       \
	X::X(const string& s)                                                \
	    : _M_msg(s)                                                      \
	{                                                                    \
	}                                                                    \
	X::X(const char* s)                                                  \
	    : _M_msg(s, strlen(s))                                           \
	{                                                                    \
	}                                                                    \
	X::X(X&& o) noexcept                                                 \
	    : exception()                                                    \
	    , _M_msg(o._M_msg)                                               \
	{                                                                    \
	}                                                                    \
	X::X(const X& o) noexcept                                            \
	    : exception()                                                    \
	    , _M_msg(o._M_msg)                                               \
	{                                                                    \
	}                                                                    \
	X& X::operator=(const X& o) noexcept                                 \
	{                                                                    \
		_M_msg = o._M_msg;                                               \
		return *this;                                                    \
	}                                                                    \
	X& X::operator=(X&& o) noexcept                                      \
	{                                                                    \
		_M_msg = o._M_msg;                                               \
		return *this;                                                    \
	}                                                                    \
	X::~X() noexcept { }                                                 \
	const char* X::what() const noexcept { return _M_msg._M_p; }
PSX_EXC(logic_error)
PSX_EXC(runtime_error)
#define PSX_DER(X, B)                                                    \
	X::X(const string& s)                                                \
	    : B(s)                                                           \
	{                                                                    \
	}                                                                    \
	X::X(const char* s)                                                  \
	    : B(s)                                                           \
	{                                                                    \
	}                                                                    \
	X::~X() noexcept { }
PSX_DER(domain_error, logic_error)
PSX_DER(invalid_argument, logic_error)
PSX_DER(length_error, logic_error)
PSX_DER(out_of_range, logic_error)
PSX_DER(range_error, runtime_error)
PSX_DER(overflow_error, runtime_error)
PSX_DER(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __throw_bad_function_call() { throw bad_function_call(); }
}
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_bad_typeid() { throw std::bad_typeid(); }
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }

// ---------------------------------------------------------------- containers
namespace std {
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
	if (x._M_next != &x) {
		if (y._M_next != &y) {
			std::swap(x._M_next, y._M_next);
			std::swap(x._M_prev, y._M_prev);
			x._M_next->_M_prev = x._M_prev->_M_next = &x;
			y._M_next->_M_prev = y._M_prev->_M_next = &y;
		} else {
			y._M_next = x._M_next;
			y._M_prev = x._M_prev;
			y._M_next->_M_prev = y._M_prev->_M_next = &y;
			x._M_next = x._M_prev = &x;
		}
	} else if (y._M_next != &y) {
		x._M_next = y._M_next;
		x._M_prev = y._M_prev;
		x._M_next->_M_prev = x._M_prev->_M_next = &x;
		y._M_next = y._M_prev = &y;
	}
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
	if (this != last) {
		last->_M_prev->_M_next = this;
		first->_M_prev->_M_next = last;
		this->_M_prev->_M_next = first;
		_List_node_base* const tmp = this->_M_prev;
		this->_M_prev = last->_M_prev;
		last->_M_prev = first->_M_prev;
		first->_M_prev = tmp;
	}
}
void _List_node_base::_M_reverse() noexcept
{
	_List_node_base* tmp = this;
	do {
		std::swap(tmp->_M_next, tmp->_M_prev);
		tmp = tmp->_M_prev;
	} while (tmp != this);
}
void _List_node_base::_M_hook(_List_node_base* const position) noexcept
{
	this->_M_next = position;
	this->_M_prev = position->_M_prev;
	position->_M_prev->_M_next = this;
	position->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
	_List_node_base* const n = this->_M_next;
	_List_node_base* const p = this->_M_prev;
	p->_M_next = n;
	n->_M_prev = p;
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
	static const size_t pr[] = { 1, 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 37, 53, 97, 193, 389, 769, 1543, 3079, 6151, 12289, 24593, 49157 };
	size_t i = 0;
	while (i + 1 < sizeof(pr) / sizeof(pr[0]) && pr[i] < n)
		++i;
	_M_next_resize = pr[i];
	return pr[i];
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
	if (elt + ins > _M_next_resize) {
		size_t need = elt + ins;
		if (_M_next_resize == 0 && need < 11)
			need = 11;
		if (need >= bkt) {
			size_t g = bkt * 2;
			return std::make_pair(true, _M_next_bkt(need + 1 > g ? need + 1 : g));
		}
		_M_next_resize = bkt;
	}
	return std::make_pair(false, (size_t)0);
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
	const unsigned char* s = (const unsigned char*)p;
	size_t h = seed;
	for (size_t i = 0; i < n; ++i)
		h = (h ^ s[i]) * 1099511628211UL;
	return h;
}

static _Rb_tree_node_base* psx_inc(_Rb_tree_node_base* x) noexcept
{
	if (x->_M_right != 0) {
		x = x->_M_right;
		while (x->_M_left != 0)
			x = x->_M_left;
	} else {
		_Rb_tree_node_base* y = x->_M_parent;
		while (x == y->_M_right) {
			x = y;
			y = y->_M_parent;
		}
		if (x->_M_right != y)
			x = y;
	}
	return x;
}
static _Rb_tree_node_base* psx_dec(_Rb_tree_node_base* x) noexcept
{
	if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
		x = x->_M_right;
	else if (x->_M_left != 0) {
		_Rb_tree_node_base* y = x->_M_left;
		while (y->_M_right != 0)
			y = y->_M_right;
		x = y;
	} else {
		_Rb_tree_node_base* y = x->_M_parent;
		while (x == y->_M_left) {
			x = y;
			y = y->_M_parent;
		}
		x = y;
	}
	return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return psx_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return psx_inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return psx_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return psx_dec(const_cast<_Rb_tree_node_base*>(x)); }

static void psx_rotl(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root)
{
	_Rb_tree_node_base* const y = x->_M_right;
	x->_M_right = y->_M_left;
	if (y->_M_left != 0)
		y->_M_left->_M_parent = x;
	y->_M_parent = x->_M_parent;
	if (x == root)
		root = y;
	else if (x == x->_M_parent->_M_left)
		x->_M_parent->_M_left = y;
	else
		x->_M_parent->_M_right = y;
	y->_M_left = x;
	x->_M_parent = y;
}
static void psx_rotr(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root)
{
	_Rb_tree_node_base* const y = x->_M_left;
	x->_M_left = y->_M_right;
	if (y->_M_right != 0)
		y->_M_right->_M_parent = x;
	y->_M_parent = x->_M_parent;
	if (x == root)
		root = y;
	else if (x == x->_M_parent->_M_right)
		x->_M_parent->_M_right = y;
	else
		x->_M_parent->_M_left = y;
	y->_M_right = x;
	x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool insert_left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) noexcept
{
	_Rb_tree_node_base*& root = header._M_parent;
	x->_M_parent = p;
	x->_M_left = 0;
	x->_M_right = 0;
	x->_M_color = _S_red;
	if (insert_left) {
		p->_M_left = x;
		if (p == &header) {
			header._M_parent = x;
			header._M_right = x;
		} else if (p == header._M_left)
			header._M_left = x;
	} else {
		p->_M_right = x;
		if (p == header._M_right)
			header._M_right = x;
	}
	while (x != root && x->_M_parent->_M_color == _S_red) {
		_Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
		if (x->_M_parent == xpp->_M_left) {
			_Rb_tree_node_base* const y = xpp->_M_right;
			if (y && y->_M_color == _S_red) {
				x->_M_parent->_M_color = _S_black;
				y->_M_color = _S_black;
				xpp->_M_color = _S_red;
				x = xpp;
			} else {
				if (x == x->_M_parent->_M_right) {
					x = x->_M_parent;
					psx_rotl(x, root);
				}
				x->_M_parent->_M_color = _S_black;
				xpp->_M_color = _S_red;
				psx_rotr(xpp, root);
			}
		} else {
			_Rb_tree_node_base* const y = xpp->_M_left;
			if (y && y->_M_color == _S_red) {
				x->_M_parent->_M_color = _S_black;
				y->_M_color = _S_black;
				xpp->_M_color = _S_red;
				x = xpp;
			} else {
				if (x == x->_M_parent->_M_left) {
					x = x->_M_parent;
					psx_rotr(x, root);
				}
				x->_M_parent->_M_color = _S_black;
				xpp->_M_color = _S_red;
				psx_rotl(xpp, root);
			}
		}
	}
	root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) noexcept
{
	_Rb_tree_node_base*& root = header._M_parent;
	_Rb_tree_node_base*& leftmost = header._M_left;
	_Rb_tree_node_base*& rightmost = header._M_right;
	_Rb_tree_node_base* y = z;
	_Rb_tree_node_base* x = 0;
	_Rb_tree_node_base* xp = 0;
	if (y->_M_left == 0)
		x = y->_M_right;
	else if (y->_M_right == 0)
		x = y->_M_left;
	else {
		y = y->_M_right;
		while (y->_M_left != 0)
			y = y->_M_left;
		x = y->_M_right;
	}
	if (y != z) {
		z->_M_left->_M_parent = y;
		y->_M_left = z->_M_left;
		if (y != z->_M_right) {
			xp = y->_M_parent;
			if (x)
				x->_M_parent = y->_M_parent;
			y->_M_parent->_M_left = x;
			y->_M_right = z->_M_right;
			z->_M_right->_M_parent = y;
		} else
			xp = y;
		if (root == z)
			root = y;
		else if (z->_M_parent->_M_left == z)
			z->_M_parent->_M_left = y;
		else
			z->_M_parent->_M_right = y;
		y->_M_parent = z->_M_parent;
		std::swap(y->_M_color, z->_M_color);
		y = z;
	} else {
		xp = y->_M_parent;
		if (x)
			x->_M_parent = y->_M_parent;
		if (root == z)
			root = x;
		else if (z->_M_parent->_M_left == z)
			z->_M_parent->_M_left = x;
		else
			z->_M_parent->_M_right = x;
		if (leftmost == z) {
			if (z->_M_right == 0)
				leftmost = z->_M_parent;
			else {
				_Rb_tree_node_base* m = x;
				while (m->_M_left)
					m = m->_M_left;
				leftmost = m;
			}
		}
		if (rightmost == z) {
			if (z->_M_left == 0)
				rightmost = z->_M_parent;
			else {
				_Rb_tree_node_base* m = x;
				while (m->_M_right)
					m = m->_M_right;
				rightmost = m;
			}
		}
	}
	if (y->_M_color != _S_red) {
		while (x != root && (x == 0 || x->_M_color == _S_black))
			if (x == xp->_M_left) {
				_Rb_tree_node_base* w = xp->_M_right;
				if (w->_M_color == _S_red) {
					w->_M_color = _S_black;
					xp->_M_color = _S_red;
					psx_rotl(xp, root);
					w = xp->_M_right;
				}
				if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) {
					w->_M_color = _S_red;
					x = xp;
					xp = xp->_M_parent;
				} else {
					if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) {
						w->_M_left->_M_color = _S_black;
						w->_M_color = _S_red;
						psx_rotr(w, root);
						w = xp->_M_right;
					}
					w->_M_color = xp->_M_color;
					xp->_M_color = _S_black;
					if (w->_M_right)
						w->_M_right->_M_color = _S_black;
					psx_rotl(xp, root);
					break;
				}
			} else {
				_Rb_tree_node_base* w = xp->_M_left;
				if (w->_M_color == _S_red) {
					w->_M_color = _S_black;
					xp->_M_color = _S_red;
					psx_rotr(xp, root);
					w = xp->_M_left;
				}
				if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) {
					w->_M_color = _S_red;
					x = xp;
					xp = xp->_M_parent;
				} else {
					if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) {
						w->_M_right->_M_color = _S_black;
						w->_M_color = _S_red;
						psx_rotl(w, root);
						w = xp->_M_left;
					}
					w->_M_color = xp->_M_color;
					xp->_M_color = _S_black;
					if (w->_M_left)
						w->_M_left->_M_color = _S_black;
					psx_rotr(xp, root);
					break;
				}
			}
		if (x)
			x->_M_color = _S_black;
	}
	return y;
}

// ---------------------------------------------------------------- threads
thread::_State::~_State() { }
void thread::_M_start_thread(_State_ptr s, void (*)())
{
	struct M {
		static void* run(void* p)
		{
			_State_ptr x(static_cast<_State*>(p));
			x->_M_run();
			return 0;
		}
	};
	pthread_t t;
	int e = pthread_create(&t, 0, M::run, s.get());
	if (e)
		__throw_system_error(e);
	_M_id._M_thread = t;
	s.release();
}
void thread::join()
{
	pthread_join(_M_id._M_thread, 0);
	_M_id = id();
}
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 4; }
}
