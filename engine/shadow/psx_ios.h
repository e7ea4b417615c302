// Minimal text streams: the formatting and extraction rules of the C++ library for narrow
// characters and the "C" locale, over in-memory buffers and in-memory files.
// Used only when the code under test is compiled for symbolic execution.
#ifndef PSX_IOS
#define PSX_IOS 1
#include <iosfwd>
#include <string>
#include <stdexcept>
#include <system_error>
#include <cstdint>
#include <new>

extern "C" {
int psx_fmt_double(char* buf, unsigned long size, double v, int prec, int flags);
double psx_parse_double(const char* s, long* used);
double psx_number(const char* s, long* used);
unsigned long psx_is_symbolic(unsigned long v);
struct psx_file {
	std::string* name;
	std::string* data;
	psx_file* next;
};
std::string* psx_file_find(const char* name);
std::string* psx_file_create(const char* name);
}

namespace std {
class locale {
public:
	locale() { }
	explicit locale(const char*) { }
	static const locale& classic()
	{
		static locale l;
		return l;
	}
	bool operator==(const locale&) const { return true; }
};
template <typename C> inline bool isspace(C c, const locale&) { return c == ' ' || (c >= 9 && c <= 13); }
template <typename C> inline bool isdigit(C c, const locale&) { return c >= '0' && c <= '9'; }
template <typename C> inline C toupper(C c, const locale&) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
template <typename C> inline C tolower(C c, const locale&) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }

class ios_base {
public:
	typedef int fmtflags;
	static const fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384;
	static const fmtflags adjustfield = left | right | internal, basefield = dec | oct | hex, floatfield = scientific | fixed;
	typedef int iostate;
	static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
	typedef int openmode;
	static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
	enum seekdir { beg, cur, end };
	class failure : public std::runtime_error {
	public:
		explicit failure(const std::string& s)
		    : std::runtime_error(s)
		{
		}
	};
	class Init { };
	fmtflags flags() const { return f_; }
	fmtflags flags(fmtflags f)
	{
		fmtflags o = f_;
		f_ = f;
		return o;
	}
	fmtflags setf(fmtflags f)
	{
		fmtflags o = f_;
		f_ |= f;
		return o;
	}
	fmtflags setf(fmtflags f, fmtflags m)
	{
		fmtflags o = f_;
		f_ = (f_ & ~m) | (f & m);
		return o;
	}
	void unsetf(fmtflags m) { f_ &= ~m; }
	streamsize precision() const { return p_; }
	streamsize precision(streamsize p)
	{
		streamsize o = p_;
		p_ = p;
		return o;
	}
	streamsize width() const { return w_; }
	streamsize width(streamsize w)
	{
		streamsize o = w_;
		w_ = w;
		return o;
	}
	locale getloc() const { return locale(); }
	locale imbue(const locale& l) { return l; }
	static bool sync_with_stdio(bool = true) { return true; }
	virtual ~ios_base() { }

protected:
	ios_base()
	    : f_(dec | skipws)
	    , p_(6)
	    , w_(0)
	{
	}
	fmtflags f_;
	streamsize p_, w_;
};

template <typename C, typename T> class basic_streambuf {
public:
	typedef C char_type;
	typedef T traits_type;
	typedef typename T::int_type int_type;
	typedef streamoff off_type;
	typedef streampos pos_type;
	virtual ~basic_streambuf() { }
	int_type sgetc() { return underflow(); }
	int_type sbumpc() { return uflow(); }
	int_type snextc()
	{
		if (sbumpc() == T::eof())
			return T::eof();
		return sgetc();
	}
	int_type sputbackc(C c) { return pbackfail(T::to_int_type(c)); }
	int_type sungetc() { return pbackfail(T::eof()); }
	int_type sputc(C c) { return overflow(T::to_int_type(c)); }
	streamsize sputn(const C* s, streamsize n) { return xsputn(s, n); }
	streamsize sgetn(C* s, streamsize n)
	{
		streamsize i = 0;
		for (; i < n; ++i) {
			int_type c = sbumpc();
			if (c == T::eof())
				break;
			s[i] = T::to_char_type(c);
		}
		return i;
	}
	int pubsync() { return sync(); }
	pos_type pubseekoff(off_type o, ios_base::seekdir d, ios_base::openmode m = ios_base::in | ios_base::out) { return seekoff(o, d, m); }
	streamsize in_avail() { return 0; }
	locale pubimbue(const locale& l) { return l; }

protected:
	basic_streambuf() { }
	virtual int_type underflow() { return T::eof(); }
	virtual int_type uflow() { return T::eof(); }
	virtual int_type pbackfail(int_type) { return T::eof(); }
	virtual int_type overflow(int_type c) { return c; }
	virtual streamsize xsputn(const C* s, streamsize n)
	{
		for (streamsize i = 0; i < n; ++i)
			overflow(T::to_int_type(s[i]));
		return n;
	}
	virtual int sync() { return 0; }
	virtual pos_type seekoff(off_type, ios_base::seekdir, ios_base::openmode) { return pos_type(off_type(-1)); }
};

// text held in a string
template <typename C, typename T> class psx_textbuf : public basic_streambuf<C, T> {
public:
	typedef typename T::int_type int_type;
	basic_string<C, T> s;
	size_t g, p;
	psx_textbuf()
	    : g(0)
	    , p(0)
	{
	}

protected:
	int_type underflow() { return g < s.size() ? T::to_int_type(s[g]) : T::eof(); }
	int_type uflow() { return g < s.size() ? T::to_int_type(s[g++]) : T::eof(); }
	int_type pbackfail(int_type)
	{
		if (g == 0)
			return T::eof();
		--g;
		return T::to_int_type(s[g]);
	}
	int_type overflow(int_type c)
	{
		if (c == T::eof())
			return 0;
		C x = T::to_char_type(c);
		xsputn(&x, 1);
		return c;
	}
	streamsize xsputn(const C* t, streamsize n)
	{
		if (p == s.size())
			s.append(t, n);
		else {
			for (streamsize i = 0; i < n; ++i) {
				if (p + i < s.size())
					s[p + i] = t[i];
				else
					s.push_back(t[i]);
			}
		}
		p += n;
		return n;
	}
	streampos seekoff(streamoff o, ios_base::seekdir d, ios_base::openmode m)
	{
		streamoff base = d == ios_base::beg ? 0 : d == ios_base::cur ? (streamoff)((m & ios_base::in) ? g : p) : (streamoff)s.size();
		streamoff x = base + o;
		if (x < 0 || x > (streamoff)s.size())
			return streampos(streamoff(-1));
		if (m & ios_base::in)
			g = x;
		if (m & ios_base::out)
			p = x;
		return streampos(x);
	}
};

template <typename C, typename T> class basic_ios : public ios_base {
public:
	typedef C char_type;
	typedef T traits_type;
	typedef typename T::int_type int_type;
	typedef streampos pos_type;
	typedef streamoff off_type;
	explicit basic_ios(basic_streambuf<C, T>* b)
	    : sb_(b)
	    , st_(b ? goodbit : badbit)
	    , ex_(goodbit)
	    , fill_(' ')
	{
	}
	explicit operator bool() const { return !fail(); }
	bool operator!() const { return fail(); }
	bool good() const { return st_ == 0; }
	bool eof() const { return (st_ & eofbit) != 0; }
	bool fail() const { return (st_ & (failbit | badbit)) != 0; }
	bool bad() const { return (st_ & badbit) != 0; }
	iostate rdstate() const { return st_; }
	void clear(iostate s = goodbit)
	{
		st_ = s;
		if (!sb_)
			st_ |= badbit;
		if (st_ & ex_)
			throw ios_base::failure("stream state");
	}
	void setstate(iostate s) { clear(st_ | s); }
	iostate exceptions() const { return ex_; }
	void exceptions(iostate e)
	{
		ex_ = e;
		clear(st_);
	}
	basic_streambuf<C, T>* rdbuf() const { return sb_; }
	basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b)
	{
		basic_streambuf<C, T>* o = sb_;
		sb_ = b;
		clear();
		return o;
	}
	C fill() const { return fill_; }
	C fill(C c)
	{
		C o = fill_;
		fill_ = c;
		return o;
	}
	C widen(char c) const { return c; }
	char narrow(C c, char) const { return c; }
	basic_ostream<C, T>* tie() const { return 0; }
	basic_ostream<C, T>* tie(basic_ostream<C, T>*) { return 0; }
	basic_ios& copyfmt(const basic_ios& o)
	{
		f_ = o.f_;
		p_ = o.p_;
		w_ = o.w_;
		fill_ = o.fill_;
		return *this;
	}
	void psx_move(basic_ios& o)
	{
		f_ = o.f_;
		p_ = o.p_;
		w_ = o.w_;
		st_ = o.st_;
		fill_ = o.fill_;
	}

protected:
	basic_streambuf<C, T>* sb_;
	iostate st_, ex_;
	C fill_;
};

template <typename C, typename T> class basic_ostream : virtual public basic_ios<C, T> {
public:
	typedef basic_ios<C, T> B;
	class sentry {
	public:
		explicit sentry(basic_ostream& o)
		    : ok(o.good())
		{
		}
		explicit operator bool() const { return ok; }
		bool ok;
	};
	explicit basic_ostream(basic_streambuf<C, T>* b)
	    : B(b)
	{
	}
	basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
	basic_ostream& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&))
	{
		f(*this);
		return *this;
	}
	basic_ostream& operator<<(ios_base& (*f)(ios_base&))
	{
		f(*this);
		return *this;
	}
	basic_ostream& operator<<(bool b)
	{
		if (this->flags() & ios_base::boolalpha)
			return b ? psx_padded("true", 4) : psx_padded("false", 5);
		return psx_int(b, false);
	}
	basic_ostream& operator<<(short v) { return psx_signed(v, (unsigned short)v); }
	basic_ostream& operator<<(unsigned short v) { return psx_int(v, false); }
	basic_ostream& operator<<(int v) { return psx_signed(v, (unsigned)v); }
	basic_ostream& operator<<(unsigned v) { return psx_int(v, false); }
	basic_ostream& operator<<(long v) { return psx_signed(v, (unsigned long)v); }
	basic_ostream& operator<<(unsigned long v) { return psx_int(v, false); }
	basic_ostream& operator<<(long long v) { return psx_signed((long)v, (unsigned long)v); }
	basic_ostream& operator<<(unsigned long long v) { return psx_int((unsigned long)v, false); }
	basic_ostream& operator<<(double v)
	{
		char b[400];
		int f = 0;
		if (this->flags() & ios_base::fixed)
			f = 1;
		else if (this->flags() & ios_base::scientific)
			f = 2;
		if (this->flags() & ios_base::showpos)
			f |= 4;
		if (this->flags() & ios_base::showpoint)
			f |= 8;
		double lim = 1;
		for (int k = 0; k < (int)this->precision() && k < 15; ++k)
			lim *= 10;
		if (f == 0 && lim > 1 && v > -lim && v < lim) {
			long w = (long)v; // a symbolic integer value prints as the integer
			if (psx_is_symbolic((unsigned long)w) && (double)w == v)
				return psx_signed(w, (unsigned long)w);
		}
		int n = psx_fmt_double(b, sizeof b, v, (int)this->precision(), f);
		return psx_padded(b, n);
	}
	basic_ostream& operator<<(float v) { return *this << (double)v; }
	basic_ostream& operator<<(long double v) { return *this << (double)v; }
	basic_ostream& operator<<(const void* p)
	{
		ios_base::fmtflags o = this->flags();
		this->setf(ios_base::hex, ios_base::basefield);
		psx_int((unsigned long)p, false);
		this->flags(o);
		return *this;
	}
	basic_ostream& operator<<(decltype(nullptr)) { return psx_padded("nullptr", 7); }
	basic_ostream& operator<<(basic_streambuf<C, T>* b)
	{
		for (;;) {
			typename T::int_type c = b->sbumpc();
			if (c == T::eof())
				break;
			put(T::to_char_type(c));
		}
		return *this;
	}
	basic_ostream& put(C c)
	{
		if (this->good())
			this->sb_->sputc(c);
		return psx_unit();
	}
	basic_ostream& write(const C* s, streamsize n)
	{
		if (this->good())
			this->sb_->sputn(s, n);
		return psx_unit();
	}
	// what is asked to be unbuffered
	basic_ostream& psx_unit()
	{
		if ((this->flags() & ios_base::unitbuf) && this->sb_)
			this->sb_->pubsync();
		return *this;
	}
	basic_ostream& flush()
	{
		if (this->sb_)
			this->sb_->pubsync();
		return *this;
	}
	streampos tellp() { return this->fail() ? streampos(streamoff(-1)) : this->sb_->pubseekoff(0, ios_base::cur, ios_base::out); }
	basic_ostream& seekp(streampos p)
	{
		this->sb_->pubseekoff(streamoff(p), ios_base::beg, ios_base::out);
		return *this;
	}
	basic_ostream& seekp(streamoff o, ios_base::seekdir d)
	{
		this->sb_->pubseekoff(o, d, ios_base::out);
		return *this;
	}
	basic_ostream& psx_padded(const C* s, streamsize n)
	{
		if (!this->good())
			return *this;
		streamsize w = this->width(0);
		streamsize pad = w > n ? w - n : 0;
		bool left = (this->flags() & ios_base::adjustfield) == ios_base::left;
		if (!left)
			for (streamsize i = 0; i < pad; ++i)
				this->sb_->sputc(this->fill());
		this->sb_->sputn(s, n);
		if (left)
			for (streamsize i = 0; i < pad; ++i)
				this->sb_->sputc(this->fill());
		return psx_unit();
	}

private:
	basic_ostream& psx_signed(long v, unsigned long bits)
	{
		if (this->flags() & (ios_base::hex | ios_base::oct))
			return psx_int(bits, false);
		if (v < 0)
			return psx_int(0UL - (unsigned long)v, true);
		return psx_int((unsigned long)v, false);
	}
	basic_ostream& psx_int(unsigned long v, bool neg)
	{
		C b[72];
		int i = 72;
		unsigned base = (this->flags() & ios_base::hex) ? 16 : (this->flags() & ios_base::oct) ? 8 : 10;
		do {
			unsigned d = (unsigned)(v % base);
			v /= base;
			b[--i] = (C)(d < 10 ? '0' + d : ((this->flags() & ios_base::uppercase) ? 'A' : 'a') + d - 10);
		} while (v);
		if (base == 16 && (this->flags() & ios_base::showbase)) {
			b[--i] = 'x';
			b[--i] = '0';
		}
		if (neg)
			b[--i] = '-';
		else if (this->flags() & ios_base::showpos)
			b[--i] = '+';
		return psx_padded(b + i, 72 - i);
	}
};
template <typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { return o.psx_padded(&c, 1); }
template <typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { return o << (char)c; }
template <typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { return o << (char)c; }
template <typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s)
{
	if (!s) {
		o.setstate(ios_base::badbit);
		return o;
	}
	return o.psx_padded(s, (streamsize)__builtin_strlen(s));
}
template <typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const signed char* s) { return o << (const char*)s; }
template <typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const unsigned char* s) { return o << (const char*)s; }
template <typename O, typename X, typename = typename enable_if<!is_lvalue_reference<O>::value>::type, typename = decltype(declval<O&>().psx_padded(nullptr, 0)), typename = decltype(declval<O&>() << declval<const X&>())> inline O&& operator<<(O&& o, const X& x)
{
	o << x;
	return std::move(o);
}
template <typename C, typename T> inline basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { return o.put('\n').flush(); }
template <typename C, typename T> inline basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o.flush(); }
template <typename C, typename T> inline basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put('\0'); }

template <typename C, typename T> class basic_istream : virtual public basic_ios<C, T> {
public:
	typedef basic_ios<C, T> B;
	typedef typename T::int_type int_type;
	class sentry {
	public:
		explicit sentry(basic_istream& i, bool noskip = false)
		    : ok(i.psx_prepare(noskip))
		{
		}
		explicit operator bool() const { return ok; }
		bool ok;
	};
	explicit basic_istream(basic_streambuf<C, T>* b)
	    : B(b)
	    , n_(0)
	{
	}
	bool psx_prepare(bool noskip)
	{
		if (!this->good()) {
			this->setstate(ios_base::failbit);
			return false;
		}
		if (!noskip && (this->flags() & ios_base::skipws)) {
			int_type c = this->sb_->sgetc();
			while (c != T::eof() && psx_space(c)) {
				this->sb_->sbumpc();
				c = this->sb_->sgetc();
			}
			if (c == T::eof()) {
				this->setstate(ios_base::eofbit | ios_base::failbit);
				return false;
			}
		}
		return true;
	}
	static bool psx_space(int_type c) { return c == ' ' || (c >= 9 && c <= 13); }
	basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
	basic_istream& operator>>(ios_base& (*f)(ios_base&))
	{
		f(*this);
		return *this;
	}
	basic_istream& operator>>(bool& b)
	{
		long v = -1;
		*this >> v;
		b = v != 0;
		if (v != 0 && v != 1)
			this->setstate(ios_base::failbit);
		return *this;
	}
	basic_istream& operator>>(short& v) { return psx_sread(v, -32768L, 32767L); }
	basic_istream& operator>>(int& v) { return psx_sread(v, -2147483647L - 1, 2147483647L); }
	basic_istream& operator>>(long& v) { return psx_sread(v, -9223372036854775807L - 1, 9223372036854775807L); }
	basic_istream& operator>>(long long& v) { return psx_sread(v, -9223372036854775807L - 1, 9223372036854775807L); }
	basic_istream& operator>>(unsigned short& v) { return psx_uread(v, 65535UL); }
	basic_istream& operator>>(unsigned& v) { return psx_uread(v, 4294967295UL); }
	basic_istream& operator>>(unsigned long& v) { return psx_uread(v, ~0UL); }
	basic_istream& operator>>(unsigned long long& v) { return psx_uread(v, ~0UL); }
	basic_istream& operator>>(double& v)
	{
		if (!psx_prepare(false))
			return *this;
		// the characters the numeric facet accepts
		char b[256];
		int n = 0;
		bool dot = false, ex = false, digit = false;
		for (;;) {
			int_type c = this->sb_->sgetc();
			if (c == T::eof()) {
				this->setstate(ios_base::eofbit);
				break;
			}
			bool ok = false;
			if (c >= '0' && c <= '9') {
				ok = true;
				digit = true;
			} else if (c == '+' || c == '-')
				ok = n == 0 || (b[n - 1] == 'e');
			else if (c == '.' && !dot && !ex) {
				ok = true;
				dot = true;
			} else if ((c == 'e' || c == 'E') && !ex && digit) {
				ok = true;
				ex = true;
				c = 'e';
			}
			if (!ok || n > 250)
				break;
			b[n++] = (char)c;
			this->sb_->sbumpc();
		}
		b[n] = 0;
		long used = 0;
		double d = psx_number(b, &used);
		if (used != n || n == 0) {
			v = 0;
			this->setstate(ios_base::failbit);
		} else
			v = d;
		return *this;
	}
	basic_istream& operator>>(float& v)
	{
		double d = v;
		*this >> d;
		v = (float)d;
		return *this;
	}
	basic_istream& operator>>(long double& v)
	{
		double d = 0;
		*this >> d;
		v = d;
		return *this;
	}
	streamsize gcount() const { return n_; }
	int_type get()
	{
		n_ = 0;
		if (!psx_prepare(true))
			return T::eof();
		int_type c = this->sb_->sbumpc();
		if (c == T::eof())
			this->setstate(ios_base::eofbit | ios_base::failbit);
		else
			n_ = 1;
		return c;
	}
	basic_istream& get(C& c)
	{
		int_type x = get();
		if (x != T::eof())
			c = T::to_char_type(x);
		return *this;
	}
	int_type peek()
	{
		n_ = 0;
		if (!this->good()) {
			return T::eof();
		}
		int_type c = this->sb_->sgetc();
		if (c == T::eof())
			this->setstate(ios_base::eofbit);
		return c;
	}
	basic_istream& getline(C* s, streamsize n, C delim = '\n')
	{
		n_ = 0;
		streamsize i = 0;
		if (psx_prepare(true)) {
			for (;;) {
				int_type c = this->sb_->sgetc();
				if (c == T::eof()) {
					this->setstate(ios_base::eofbit);
					break;
				}
				if (T::to_char_type(c) == delim) {
					this->sb_->sbumpc();
					++n_;
					break;
				}
				if (i + 1 >= n) {
					this->setstate(ios_base::failbit);
					break;
				}
				s[i++] = T::to_char_type(c);
				++n_;
				this->sb_->sbumpc();
			}
		}
		if (n > 0)
			s[i] = C();
		if (n_ == 0)
			this->setstate(ios_base::failbit);
		return *this;
	}
	basic_istream& ignore(streamsize n = 1, int_type delim = T::eof())
	{
		n_ = 0;
		if (!psx_prepare(true))
			return *this;
		while (n_ < n) {
			int_type c = this->sb_->sbumpc();
			if (c == T::eof()) {
				this->setstate(ios_base::eofbit);
				break;
			}
			++n_;
			if (c == delim)
				break;
		}
		return *this;
	}
	basic_istream& read(C* s, streamsize n)
	{
		n_ = 0;
		if (!psx_prepare(true))
			return *this;
		n_ = this->sb_->sgetn(s, n);
		if (n_ != n)
			this->setstate(ios_base::eofbit | ios_base::failbit);
		return *this;
	}
	basic_istream& putback(C c)
	{
		n_ = 0;
		this->clear(this->rdstate() & ~ios_base::eofbit);
		if (!this->good()) {
			this->setstate(ios_base::failbit);
			return *this;
		}
		if (this->sb_->sputbackc(c) == T::eof())
			this->setstate(ios_base::badbit);
		return *this;
	}
	basic_istream& unget()
	{
		n_ = 0;
		this->clear(this->rdstate() & ~ios_base::eofbit);
		if (!this->good()) {
			this->setstate(ios_base::failbit);
			return *this;
		}
		if (this->sb_->sungetc() == T::eof())
			this->setstate(ios_base::badbit);
		return *this;
	}
	streampos tellg() { return this->fail() ? streampos(streamoff(-1)) : this->sb_->pubseekoff(0, ios_base::cur, ios_base::in); }
	basic_istream& seekg(streampos p) { return seekg(streamoff(p), ios_base::beg); }
	basic_istream& seekg(streamoff o, ios_base::seekdir d)
	{
		this->clear(this->rdstate() & ~ios_base::eofbit);
		if (!this->fail())
			if (streamoff(this->sb_->pubseekoff(o, d, ios_base::in)) < 0)
				this->setstate(ios_base::failbit);
		return *this;
	}
	int sync() { return 0; }

protected:
	streamsize n_;

private:
	// magnitude; returns false when no digits. Overflow saturates.
	bool psx_digits(unsigned long& v, bool& neg, bool& over)
	{
		neg = false;
		over = false;
		v = 0;
		bool any = false;
		int_type c = this->sb_->sgetc();
		if (c == '-' || c == '+') {
			neg = c == '-';
			this->sb_->sbumpc();
			c = this->sb_->sgetc();
		}
		unsigned base = (this->flags() & ios_base::hex) ? 16 : (this->flags() & ios_base::oct) ? 8 : 10;
		for (; c != T::eof(); c = this->sb_->sgetc()) {
			unsigned d;
			if (c >= '0' && c <= '9')
				d = (unsigned)(c - '0');
			else if (base == 16 && c >= 'a' && c <= 'f')
				d = (unsigned)(c - 'a' + 10);
			else if (base == 16 && c >= 'A' && c <= 'F')
				d = (unsigned)(c - 'A' + 10);
			else
				break;
			if (d >= base)
				break;
			any = true;
			if (v > (~0UL - d) / base)
				over = true;
			v = v * base + d;
			this->sb_->sbumpc();
		}
		if (c == T::eof())
			this->setstate(ios_base::eofbit);
		return any;
	}
	template <typename X> basic_istream& psx_sread(X& x, long mn, long mx)
	{
		if (!psx_prepare(false))
			return *this;
		unsigned long v;
		bool neg, over;
		if (!psx_digits(v, neg, over)) {
			x = 0;
			this->setstate(ios_base::failbit);
			return *this;
		}
		if (!neg && (over || v > (unsigned long)mx)) {
			x = (X)mx;
			this->setstate(ios_base::failbit);
		} else if (neg && (over || v > 0UL - (unsigned long)mn)) {
			x = (X)mn;
			this->setstate(ios_base::failbit);
		} else
			x = (X)(neg ? 0UL - v : v);
		return *this;
	}
	template <typename X> basic_istream& psx_uread(X& x, unsigned long mx)
	{
		if (!psx_prepare(false))
			return *this;
		unsigned long v;
		bool neg, over;
		if (!psx_digits(v, neg, over)) {
			x = 0;
			this->setstate(ios_base::failbit);
			return *this;
		}
		if (over || v > mx) {
			x = (X)mx;
			this->setstate(ios_base::failbit);
		} else
			x = (X)(neg ? 0UL - v : v);
		return *this;
	}
};
template <typename T> inline basic_istream<char, T>& operator>>(basic_istream<char, T>& i, char& c)
{
	if (i.psx_prepare(false)) {
		typename T::int_type x = i.rdbuf()->sbumpc();
		if (x == T::eof())
			i.setstate(ios_base::eofbit | ios_base::failbit);
		else
			c = T::to_char_type(x);
	}
	return i;
}
template <typename T> inline basic_istream<char, T>& operator>>(basic_istream<char, T>& i, unsigned char& c) { return i >> (char&)c; }
template <typename T> inline basic_istream<char, T>& operator>>(basic_istream<char, T>& i, signed char& c) { return i >> (char&)c; }
template <typename I, typename X, typename = typename enable_if<!is_lvalue_reference<I>::value>::type, typename = decltype(declval<I&>().psx_prepare(false)), typename = decltype(declval<I&>() >> declval<X&&>())> inline I&& operator>>(I&& i, X&& x)
{
	i >> std::forward<X>(x);
	return std::move(i);
}
template <typename C, typename T> inline basic_istream<C, T>& ws(basic_istream<C, T>& i)
{
	while (i.good()) {
		typename T::int_type c = i.rdbuf()->sgetc();
		if (c == T::eof())
			i.setstate(ios_base::eofbit);
		else if (basic_istream<C, T>::psx_space(c))
			i.rdbuf()->sbumpc();
		else
			break;
	}
	return i;
}
template <> inline basic_istream<char>& operator>>(basic_istream<char>& i, basic_string<char>& s)
{
	if (!i.psx_prepare(false))
		return i;
	s.clear();
	streamsize w = i.width(0);
	for (;;) {
		int c = i.rdbuf()->sgetc();
		if (c == char_traits<char>::eof()) {
			i.setstate(ios_base::eofbit);
			break;
		}
		if (basic_istream<char>::psx_space(c) || (w > 0 && (streamsize)s.size() >= w))
			break;
		s.push_back((char)c);
		i.rdbuf()->sbumpc();
	}
	if (s.empty())
		i.setstate(ios_base::failbit);
	return i;
}
template <> inline basic_istream<char>& getline(basic_istream<char>& i, basic_string<char>& s, char delim)
{
	bool got = false;
	if (i.psx_prepare(true)) {
		s.clear();
		for (;;) {
			int c = i.rdbuf()->sbumpc();
			if (c == char_traits<char>::eof()) {
				i.setstate(ios_base::eofbit);
				break;
			}
			got = true;
			if ((char)c == delim)
				break;
			s.push_back((char)c);
		}
		if (!got)
			i.setstate(ios_base::failbit);
	}
	return i;
}

template <typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
public:
	explicit basic_iostream(basic_streambuf<C, T>* b)
	    : basic_ios<C, T>(b)
	    , basic_istream<C, T>(b)
	    , basic_ostream<C, T>(b)
	{
	}
};

inline namespace __cxx11 {
template <typename C, typename T, typename A> class basic_stringbuf : public psx_textbuf<C, T> {
public:
	explicit basic_stringbuf(ios_base::openmode = ios_base::in | ios_base::out) { }
	explicit basic_stringbuf(const basic_string<C, T, A>& x, ios_base::openmode = ios_base::in | ios_base::out) { this->s = x; }
	basic_string<C, T, A> str() const { return this->s; }
	void str(const basic_string<C, T, A>& x)
	{
		this->s = x;
		this->g = this->p = 0;
	}
};
}
#define PSX_SSTREAM(NAME, BASE, MODE)                                                                              \
	template <typename C, typename T, typename A> class NAME : public BASE<C, T> {                                 \
		basic_stringbuf<C, T, A> b_;                                                                               \
                                                                                                                   \
	public:                                                                                                        \
		NAME()                                                                                                     \
		    : basic_ios<C, T>(&b_)                                                                                 \
		    , BASE<C, T>(&b_)                                                                                      \
		{                                                                                                          \
		}                                                                                                          \
		explicit NAME(ios_base::openmode)                                                                          \
		    : basic_ios<C, T>(&b_)                                                                                 \
		    , BASE<C, T>(&b_)                                                                                      \
		{                                                                                                          \
		}                                                                                                          \
		explicit NAME(const basic_string<C, T, A>& s, ios_base::openmode m = MODE)                                 \
		    : basic_ios<C, T>(&b_)                                                                                 \
		    , BASE<C, T>(&b_)                                                                                      \
		{                                                                                                          \
			b_.str(s);                                                                                             \
			if (m & (ios_base::ate | ios_base::app))                                                               \
				b_.p = s.size();                                                                                   \
		}                                                                                                          \
		NAME(NAME&& o)                                                                                             \
		    : basic_ios<C, T>(&b_)                                                                                 \
		    , BASE<C, T>(&b_)                                                                                      \
		{                                                                                                          \
			b_.s = o.b_.s;                                                                                         \
			b_.g = o.b_.g;                                                                                         \
			b_.p = o.b_.p;                                                                                         \
			this->psx_move(o);                                                                                     \
		}                                                                                                          \
		basic_string<C, T, A> str() const { return b_.str(); }                                                     \
		void str(const basic_string<C, T, A>& s) { b_.str(s); }                                                    \
		basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&b_); }             \
	};
PSX_SSTREAM(basic_istringstream, basic_istream, ios_base::in)
PSX_SSTREAM(basic_ostringstream, basic_ostream, ios_base::out)
PSX_SSTREAM(basic_stringstream, basic_iostream, ios_base::in | ios_base::out)
#undef PSX_SSTREAM

template <typename C, typename T> class basic_filebuf : public psx_textbuf<C, T> {
	std::string* f_;
	ios_base::openmode m_;

public:
	basic_filebuf()
	    : f_(0)
	    , m_(0)
	{
	}
	~basic_filebuf() { close(); }
	bool is_open() const { return f_ != 0; }
	basic_filebuf* open(const char* name, ios_base::openmode m)
	{
		if (f_)
			return 0;
		f_ = psx_file_find(name);
		if (!f_) {
			if (!(m & ios_base::out) && !(m & ios_base::app))
				return 0;
			if ((m & ios_base::in) && !(m & (ios_base::trunc | ios_base::app)))
				return 0;
			for (const char* c = name; *c; ++c)
				if (*c == '/')
					return 0; // there are no folders
			if (!*name)
				return 0;
			f_ = psx_file_create(name);
		}
		m_ = m;
		bool trunc = (m & ios_base::trunc) || ((m & ios_base::out) && !(m & (ios_base::in | ios_base::app)));
		if (trunc)
			f_->clear();
		this->s = *f_;
		this->g = 0;
		this->p = (m & (ios_base::app | ios_base::ate)) ? this->s.size() : 0;
		return this;
	}
	basic_filebuf* close()
	{
		if (!f_)
			return 0;
		sync();
		f_ = 0;
		return this;
	}

protected:
	int sync()
	{
		if (f_ && (m_ & (ios_base::out | ios_base::app)))
			*f_ = this->s;
		return 0;
	}
};
#define PSX_FSTREAM(NAME, BASE, MODE)                                                                              \
	template <typename C, typename T> class NAME : public BASE<C, T> {                                             \
		basic_filebuf<C, T> b_;                                                                                    \
                                                                                                                   \
	public:                                                                                                        \
		NAME()                                                                                                     \
		    : basic_ios<C, T>(&b_)                                                                                 \
		    , BASE<C, T>(&b_)                                                                                      \
		{                                                                                                          \
		}                                                                                                          \
		explicit NAME(const char* n, ios_base::openmode m = MODE)                                                  \
		    : basic_ios<C, T>(&b_)                                                                                 \
		    , BASE<C, T>(&b_)                                                                                      \
		{                                                                                                          \
			open(n, m);                                                                                            \
		}                                                                                                          \
		explicit NAME(const std::string& n, ios_base::openmode m = MODE)                                           \
		    : basic_ios<C, T>(&b_)                                                                                 \
		    , BASE<C, T>(&b_)                                                                                      \
		{                                                                                                          \
			open(n.c_str(), m);                                                                                    \
		}                                                                                                          \
		void open(const char* n, ios_base::openmode m = MODE)                                                      \
		{                                                                                                          \
			if (b_.open(n, m | PSX_FORCE))                                                                         \
				this->clear();                                                                                     \
			else                                                                                                   \
				this->setstate(ios_base::failbit);                                                                 \
		}                                                                                                          \
		void open(const std::string& n, ios_base::openmode m = MODE) { open(n.c_str(), m); }                       \
		void close()                                                                                               \
		{                                                                                                          \
			if (!b_.close())                                                                                       \
				this->setstate(ios_base::failbit);                                                                 \
		}                                                                                                          \
		bool is_open() const { return b_.is_open(); }                                                              \
		basic_filebuf<C, T>* rdbuf() const { return const_cast<basic_filebuf<C, T>*>(&b_); }                       \
	};
#define PSX_FORCE ios_base::in
PSX_FSTREAM(basic_ifstream, basic_istream, ios_base::in)
#undef PSX_FORCE
#define PSX_FORCE ios_base::out
PSX_FSTREAM(basic_ofstream, basic_ostream, ios_base::out)
#undef PSX_FORCE
#define PSX_FORCE 0
PSX_FSTREAM(basic_fstream, basic_iostream, ios_base::in | ios_base::out)
#undef PSX_FORCE
#undef PSX_FSTREAM

// standard streams discard what is written and are empty for reading
extern ostream cout, cerr, clog;
extern istream cin;

inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base& showpos(ios_base& b) { b.setf(ios_base::showpos); return b; }
inline ios_base& noshowpos(ios_base& b) { b.unsetf(ios_base::showpos); return b; }
inline ios_base& showpoint(ios_base& b) { b.setf(ios_base::showpoint); return b; }
inline ios_base& showbase(ios_base& b) { b.setf(ios_base::showbase); return b; }
inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; }
inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; }
inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base& unitbuf(ios_base& b) { b.setf(ios_base::unitbuf); return b; }
inline ios_base& nounitbuf(ios_base& b) { b.unsetf(ios_base::unitbuf); return b; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base& internal(ios_base& b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base& defaultfloat(ios_base& b) { b.unsetf(ios_base::floatfield); return b; }

struct psx_setprecision { int n; };
struct psx_setw { int n; };
struct psx_setfill { char c; };
inline psx_setprecision setprecision(int n) { return psx_setprecision { n }; }
inline psx_setw setw(int n) { return psx_setw { n }; }
inline psx_setfill setfill(char c) { return psx_setfill { c }; }
template <typename C, typename T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, psx_setprecision p) { o.precision(p.n); return o; }
template <typename C, typename T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, psx_setw p) { o.width(p.n); return o; }
template <typename C, typename T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, psx_setfill p) { o.fill(p.c); return o; }
template <typename C, typename T> inline basic_istream<C, T>& operator>>(basic_istream<C, T>& o, psx_setw p) { o.width(p.n); return o; }
}
#include <bits/streambuf_iterator.h>
#endif
