// P37: the hierarchical archive: what is written is what is read back.
//@ src: PsimagLite.cpp Io/TypeToH5.cpp
//@ bcflags: -I@/h5
//@ ldflags: -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_serial_cpp -lhdf5_serial -llapack -lblas
//@ bounds: every value of every scalar type (all bit patterns of doubles and floats); strings and vectors of up to 3 elements (thorough 4), lists of booleans of up to 17 (thorough 25) elements, all equal but for three neighbours, and of 250 to 260, matrices up to 2x2, vectors of up to 2 vectors/objects; histories of up to 3 writes (thorough 4) to two labels with or without permission to overwrite; histories of up to 3 archive openings in every mode; vectors of 33 and 150 elements, texts of 77 and 300 characters, an 11x7 and a 9x13 matrix and 13 vectors, fixed but for one element
//@ case large max_instr=60000000
//@ case large_objects max_instr=60000000
//@ assume: HDF5 itself is represented by h/h5/H5Cpp.h: trees of groups and typed datasets, creation refused where the name exists or the parent does not, whole-dataset reads and writes with HDF5's numeric conversions, a file kept open by its open objects; sampled paths are compared with the real HDF5 library. Labels do not contain each other's reserved suffixes ("ComplexOrReal", "Size", "Canary")
#include "psx.h"
#include "Io/IoNg.h"
#include "CrsMatrix.h"
#include "Matrix.h"
#include "mat.h"
#include <cstdio>
#include <fstream>
#include <map>
#include <stack>
using namespace PsimagLite;
typedef IoNg::Out Out;
typedef IoNg::In In;
static const IoNgSerializer::WriteMode NO = IoNgSerializer::NO_OVERWRITE, ALLOW = IoNgSerializer::ALLOW_OVERWRITE;

enum Plain { P0, P1, P300 = 300, PNEG = -7, PBIG = 2000000000 };
enum class Small : unsigned char { A, B = 200, C = 255 };
enum class Wide : long { A = -5000000000L, B = -1, C = 7, D = 5000000000L };

static void quiet()
{
	static std::ofstream* sink = nullptr;
	if (!sink) {
		sink = new std::ofstream("stderr.txt");
		std::cerr.rdbuf(sink->rdbuf());
		H5::Exception::dontPrint();
	}
}
template <typename T>
static void any(T& x)
{
	uint64_t u = psx_u64("value");
	memcpy(&x, &u, sizeof(T));
}
static void any(bool& x) { x = psx_bool("bool"); }
static void any(Cx& x)
{
	double re, im;
	any(re);
	any(im);
	x = Cx(re, im);
}
template <typename T>
static bool bits(const Matrix<T>& a, const Matrix<T>& b);
template <typename T>
static bool bits(const CrsMatrix<T>& a, const CrsMatrix<T>& b);
template <typename A, typename B>
static bool bits(const std::pair<A, B>& a, const std::pair<A, B>& b);
template <typename T>
static bool bits(const std::vector<T>& a, const std::vector<T>& b);
template <typename T>
static bool bits(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
template <typename T>
static bool bits(const std::vector<T>& a, const std::vector<T>& b)
{
	if (a.size() != b.size())
		return false;
	bool r = true;
	for (Sz i = 0; i < a.size(); ++i)
		r = r & bits(a[i], b[i]);
	return r;
}
static bool bits(const std::string& a, const std::string& b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0; }
static bool bits(const std::vector<bool>& a, const std::vector<bool>& b)
{
	if (a.size() != b.size())
		return false;
	bool r = true;
	for (Sz i = 0; i < a.size(); ++i)
		r = r & (a[i] == b[i]);
	return r;
}
template <typename A, typename B>
static bool bits(const std::pair<A, B>& a, const std::pair<A, B>& b) { return bits(a.first, b.first) & bits(a.second, b.second); }
template <typename T>
static bool bits(const std::vector<std::vector<T>>& a, const std::vector<std::vector<T>>& b)
{
	if (a.size() != b.size())
		return false;
	bool r = true;
	for (Sz i = 0; i < a.size(); ++i)
		r = r & bits(a[i], b[i]);
	return r;
}
template <typename T>
static bool bits(const Matrix<T>& a, const Matrix<T>& b)
{
	if (a.rows() != b.rows() || a.cols() != b.cols())
		return false;
	bool r = true;
	for (Sz j = 0; j < a.cols(); ++j)
		for (Sz i = 0; i < a.rows(); ++i)
			r = r & bits(a(i, j), b(i, j));
	return r;
}
template <typename T>
static bool bits(const CrsMatrix<T>& a, const CrsMatrix<T>& b)
{
	if (a.rows() != b.rows() || a.cols() != b.cols() || a.nonZeros() != b.nonZeros())
		return false;
	bool r = true;
	if (a.rows() == 0)
		return true;
	for (Sz i = 0; i <= a.rows(); ++i)
		r = r & (a.getRowPtr(i) == b.getRowPtr(i));
	for (Sz i = 0; i < a.nonZeros(); ++i)
		r = r & (a.getCol(i) == b.getCol(i)) & bits(a.getValue(i), b.getValue(i));
	return r;
}
template <typename T>
static void watch(const T& x)
{
	uint64_t u = 0;
	memcpy(&u, &x, sizeof(T));
	psx_observe(u);
}
// the archive is finished in one of the ways a user has
static void finish(Out& o)
{
	switch (psx_choose("finish", 3)) {
	case 0: return; // destructor
	case 1: o.close(); return;
	default: o.flush(); o.close();
	}
}
template <typename T>
static bool readable(In& in, T& x, const char* label)
{
	try {
		in.read(x, label);
	} catch (...) {
		return false;
	}
	return true;
}
template <typename T>
static void expect(In& in, const char* label, const T& want, T used, const char* what)
{
	bool ok = readable(in, used, label);
	psx_assert(ok, what);
	if (!ok)
		return;
	psx_assert(bits(used, want), what);
}
// written, closed, opened again, read into something with other content
template <typename T>
static void roundTrip(const T& x, const T& used, const char* what)
{
	quiet();
	{
		Out o("a.h5", IoNg::ACC_TRUNC);
		o.write(x, "before");
		o.write(x, "x");
		finish(o);
	}
	In in("a.h5");
	expect(in, "x", x, used, what);
	expect(in, "before", x, used, what);
	T y = used;
	psx_assert(!readable(in, y, "y"), "a label that was not written cannot be read");
}
// x written, then y under the same label
template <typename T>
static void twice(const T& x, const T& y, const T& used, bool allow, const char* what)
{
	quiet();
	{
		Out o("a.h5", IoNg::ACC_TRUNC);
		Sz reopened = psx_choose("reopened", 2);
		o.write(x, "x");
		o.write(x, "z");
		if (reopened)
			o.close();
		else
			o.write(y, "x", allow ? ALLOW : NO);
		if (reopened) {
			Out o2("a.h5", IoNg::ACC_RDW);
			o2.write(y, "x", allow ? ALLOW : NO);
		}
	}
	In in("a.h5");
	expect(in, "x", allow ? y : x, used, what);
	expect(in, "z", x, used, "other labels are not touched");
}
template <typename T>
static void scalar()
{
	T x, y, u;
	any(x);
	any(u);
	if (psx_choose("twice", 2)) {
		any(y);
		twice(x, y, u, psx_choose("allow", 2), "scalar written twice");
	} else
		roundTrip(x, u, "scalar");
	watch(x);
}
PSX_CASE(scalars)
{
	switch (psx_choose("type", 11)) {
	case 0: scalar<char>(); break;
	case 1: scalar<unsigned char>(); break;
	case 2: scalar<short>(); break;
	case 3: scalar<unsigned short>(); break;
	case 4: scalar<int>(); break;
	case 5: scalar<unsigned int>(); break;
	case 6: scalar<long>(); break;
	case 7: scalar<unsigned long>(); break;
	case 8: scalar<float>(); break;
	case 9: scalar<double>(); break;
	default: scalar<bool>(); break;
	}
}
// numbers written as one type and read as another: the same whole number wherever it fits
template <typename A, typename B>
static void converted()
{
	quiet();
	A x;
	any(x);
	B y = 0;
	psx_assume(std::is_signed<B>::value || !(x < A(0)));
	if (std::is_integral<A>::value && std::is_integral<B>::value)
		psx_assume(A(B(x)) == x && (B(x) < B(0)) == (x < A(0)));
	{
		Out o("a.h5", IoNg::ACC_TRUNC);
		o.write(x, "x");
		o.write(std::vector<A>(2, x), "v");
	}
	In in("a.h5");
	in.read(y, "x");
	psx_assert(y == B(x), "number read as another type");
	if (std::is_integral<A>::value == std::is_integral<B>::value) {
		std::vector<B> v;
		in.read(v, "v");
		psx_assert(v.size() == 2 && v[0] == B(x) && v[1] == B(x), "numbers read as another type");
	}
	watch(y);
}
PSX_CASE(conversions)
{
	switch (psx_choose("types", 9)) {
	case 0: converted<int, SizeType>(); break;
	case 1: converted<SizeType, int>(); break;
	case 2: converted<short, long>(); break;
	case 3: converted<long, short>(); break;
	case 4: converted<unsigned char, int>(); break;
	case 5: converted<int, unsigned char>(); break;
	case 6: converted<unsigned int, long>(); break;
	case 7: converted<char, SizeType>(); break;
	default: converted<int, double>(); break;
	}
}
template <typename E>
static void enumeration(const std::vector<E>& all)
{
	E x = all[psx_choose("x", all.size())], y = all[psx_choose("y", all.size())];
	switch (psx_choose("how", 3)) {
	case 0: roundTrip(x, y, "enumeration"); break;
	case 1: twice(x, y, x, true, "enumeration overwritten"); break;
	default: twice(x, y, y, false, "enumeration written twice"); break;
	}
}
PSX_CASE(enumerations)
{
	switch (psx_choose("type", 3)) {
	case 0: enumeration<Plain>({ P0, P1, P300, PNEG, PBIG }); break;
	case 1: enumeration<Small>({ Small::A, Small::B, Small::C }); break;
	default: enumeration<Wide>({ Wide::A, Wide::B, Wide::C, Wide::D }); break;
	}
}
static std::string text(Sz n)
{
	std::string s(n, ' ');
	for (Sz i = 0; i < n; ++i)
		s[i] = psx_u8("char");
	return s;
}
PSX_CASE(strings)
{
	Sz n = psx_choose("n", PSX_T(4, 6));
	std::string used = psx_choose("used", 2) ? "earlier content" : "";
	roundTrip(text(n), used, "string");
	psx_observe(n);
}
template <typename T>
static std::vector<T> vec(Sz n)
{
	std::vector<T> v(n);
	for (Sz i = 0; i < n; ++i) {
		T x;
		any(x);
		v[i] = x;
	}
	return v;
}
static const Sz TOP = PSX_T(4, 5);
template <typename T>
static void vector()
{
	Sz n = psx_choose("n", TOP), m = psx_choose("used", 2) * 2;
	std::vector<T> x = vec<T>(n), u = vec<T>(m);
	Sz how = psx_choose("how", 3);
	if (how == 0)
		roundTrip(x, u, "vector");
	else
		twice(x, vec<T>(psx_choose("second", TOP)), u, how == 1, how == 1 ? "vector overwritten" : "vector written twice");
}
PSX_CASE(vectors)
{
	switch (psx_choose("type", 6)) {
	case 0: vector<char>(); break;
	case 1: vector<unsigned char>(); break;
	case 2: vector<int>(); break;
	case 3: vector<SizeType>(); break;
	case 4: vector<float>(); break;
	default: vector<double>(); break;
	}
}
PSX_CASE(complex_vectors) { vector<Cx>(); }
// a background with three arbitrary bits around an arbitrary place
static std::vector<bool> booleans(Sz n, Sz window)
{
	std::vector<bool> x(n);
	if (n == 0)
		return x;
	bool back = psx_choose("others", 2);
	Sz at = psx_choose("at", n);
	for (Sz i = 0; i < n; ++i)
		x[i] = i >= at && i < at + window ? psx_bool("bit") : back;
	return x;
}
PSX_CASE(boolean_lists)
{
	Sz n = psx_choose("n", PSX_T(18, 26));
	std::vector<bool> x = booleans(n, 3), u(psx_choose("used", 2) * 3, true);
	roundTrip(x, u, "list of booleans");
}
PSX_CASE(boolean_lists_again)
{
	static const Sz sizes[] = { 0, 1, 9 };
	std::vector<bool> x = booleans(sizes[psx_choose("n", 3)], 1), y = booleans(sizes[psx_choose("m", 3)], 1);
	twice(x, y, std::vector<bool>(2, true), psx_choose("allow", 2), "list of booleans written twice");
}
PSX_CASE(boolean_lists_long)
{
	Sz n = 250 + psx_choose("n", 11);
	std::vector<bool> x(n);
	for (Sz i = 0; i < n; ++i)
		x[i] = (i * i + i / 3) % 2;
	for (Sz i = n - 3; i < n; ++i)
		x[i] = psx_bool("bit");
	roundTrip(x, std::vector<bool>(), "long list of booleans");
}
PSX_CASE(pairs)
{
	typedef std::pair<int, double> P;
	P x, y, u;
	any(x.first);
	any(x.second);
	any(u.first);
	any(u.second);
	Sz how = psx_choose("how", 4);
	if (how == 0)
		roundTrip(x, u, "pair");
	else if (how == 1) {
		any(y.first);
		any(y.second);
		twice(x, y, u, true, "pair overwritten");
	} else {
		std::vector<P> v(psx_choose("n", 3)), w(psx_choose("used", 2) * 3, u);
		for (Sz i = 0; i < v.size(); ++i) {
			any(v[i].first);
			any(v[i].second);
		}
		roundTrip(v, w, "vector of pairs");
	}
}
PSX_CASE(enumeration_lists)
{
	static const Wide all[] = { Wide::A, Wide::B, Wide::C, Wide::D };
	std::vector<Wide> v(psx_choose("n", 3)), w(psx_choose("used", 2) * 3, Wide::D);
	for (Sz i = 0; i < v.size(); ++i)
		v[i] = all[psx_choose("e", 4)];
	roundTrip(v, w, "vector of enumeration values");
}
template <typename T>
static std::vector<std::vector<T>> nested(Sz top)
{
	std::vector<std::vector<T>> v(psx_choose("outer", top));
	for (Sz i = 0; i < v.size(); ++i)
		v[i] = vec<T>(psx_choose("inner", 3));
	return v;
}
template <typename T>
static void nestedCase()
{
	std::vector<std::vector<T>> u;
	if (psx_choose("used", 2))
		u.assign(3, std::vector<T>(2, T(5)));
	std::vector<std::vector<T>> x = nested<T>(3);
	Sz how = psx_choose("how", 2);
	if (how == 0)
		roundTrip(x, u, "vector of vectors");
	else
		twice(x, nested<T>(3), u, true, "vector of vectors overwritten");
}
PSX_CASE(nested_real) { nestedCase<double>(); }
PSX_CASE(nested_int) { nestedCase<SizeType>(); }
PSX_CASE(nested_complex) { nestedCase<Cx>(); }

// objects that write themselves
template <typename T>
static Matrix<T> mtx()
{
	static const Sz r[] = { 0, 1, 1, 2, 2 }, c[] = { 0, 1, 2, 1, 2 };
	Sz k = psx_choose("shape", 5);
	Matrix<T> m(r[k], c[k]);
	for (Sz j = 0; j < c[k]; ++j)
		for (Sz i = 0; i < r[k]; ++i) {
			T x;
			any(x);
			m(i, j) = x;
		}
	return m;
}
template <typename T>
static CrsMatrix<T> crs()
{
	static const Sz r[] = { 0, 1, 1, 2 }, c[] = { 0, 1, 2, 2 };
	Sz k = psx_choose("shape", 4);
	if (k == 0)
		return CrsMatrix<T>();
	CrsMatrix<T> m(r[k], c[k]);
	Sz n = 0;
	for (Sz i = 0; i < r[k]; ++i) {
		m.setRow(i, n);
		for (Sz j = 0; j < c[k]; ++j) {
			if (!psx_choose("stored", 2))
				continue;
			T x;
			any(x);
			m.pushCol(j);
			m.pushValue(x);
			++n;
		}
	}
	m.setRow(r[k], n);
	return m;
}
template <typename M>
static void object(M (*make)(), const M& used, const char* what)
{
	M x = make(), u;
	if (psx_choose("used", 2))
		u = used;
	switch (psx_choose("how", 3)) {
	case 0: roundTrip(x, u, what); return;
	case 1: twice(x, make(), u, true, what); return;
	default: { // with permission to overwrite, on a new label
		quiet();
		{
			Out o("a.h5", IoNg::ACC_TRUNC);
			o.write(x, "x", ALLOW);
			finish(o);
		}
		In in("a.h5");
		expect(in, "x", x, u, what);
	}
	}
}
PSX_CASE(matrix_real) { object<Matrix<double>>(mtx<double>, Matrix<double>(1, 3), "matrix"); }
PSX_CASE(matrix_complex) { object<Matrix<Cx>>(mtx<Cx>, Matrix<Cx>(1, 3), "complex matrix"); }
PSX_CASE(matrix_int) { object<Matrix<int>>(mtx<int>, Matrix<int>(1, 3), "integer matrix"); }
PSX_CASE(sparse_real)
{
	CrsMatrix<double> u;
	u.makeDiagonal(3, 1.0);
	object<CrsMatrix<double>>(crs<double>, u, "sparse matrix");
}
PSX_CASE(sparse_complex)
{
	CrsMatrix<Cx> u;
	u.makeDiagonal(1, 1.0);
	object<CrsMatrix<Cx>>(crs<Cx>, u, "complex sparse matrix");
}
template <typename M>
static void objects(M (*make)(), const char* what)
{
	std::vector<M> x(psx_choose("n", 3)), y, u;
	for (Sz i = 0; i < x.size(); ++i)
		x[i] = make();
	if (psx_choose("used", 2)) {
		u.resize(3);
		for (Sz i = 0; i < 3; ++i)
			u[i] = M(1, 1);
	}
	Sz how = psx_choose("how", 4);
	if (how == 0) {
		roundTrip(x, u, what);
		return;
	}
	quiet();
	{
		Out o("a.h5", IoNg::ACC_TRUNC);
		if (how == 3) {
			std::vector<M*> v;
			for (Sz i = 0; i < x.size(); ++i)
				v.push_back(&x[i]);
			o.write(v, "x");
		} else {
			y.resize(psx_choose("m", 3));
			for (Sz i = 0; i < y.size(); ++i)
				y[i] = make();
			o.write(x, "x");
			if (how == 1)
				o.overwrite(y, "x");
			else
				o.write(y, "x", ALLOW);
		}
		finish(o);
	}
	In in("a.h5");
	expect(in, "x", how == 3 ? x : y, u, what);
}
static Matrix<double> smallMatrix()
{
	Sz k = psx_choose("shape", 3);
	Matrix<double> m(k == 0 ? 0 : 1, k);
	for (Sz i = 0; i < k; ++i) {
		double x;
		any(x);
		m(0, i) = x;
	}
	return m;
}
PSX_CASE(matrix_lists) { objects<Matrix<double>>(smallMatrix, "vector of matrices"); }
PSX_CASE(stacks)
{
	quiet();
	std::vector<Matrix<double>> x(psx_choose("n", 4));
	std::stack<Matrix<double>> s;
	for (Sz i = 0; i < x.size(); ++i) {
		x[i] = smallMatrix();
		s.push(x[i]);
	}
	{
		Out o("a.h5", IoNg::ACC_TRUNC);
		o.write(s, "x");
		psx_assert(s.empty(), "the stack is emptied by writing, as documented");
		finish(o);
	}
	In in("a.h5");
	std::stack<Matrix<double>> t;
	bool ok = readable(in, t, "x");
	psx_assert(ok, "stack can be read");
	psx_assert(t.size() == x.size(), "size of the stack");
	for (Sz i = x.size(); i > 0 && !t.empty(); --i) {
		psx_assert(bits(t.top(), x[i - 1]), "stack in the same order");
		t.pop();
	}
}
PSX_CASE(pair_with_object)
{
	quiet();
	std::pair<SizeType, Matrix<double>> x, u;
	any(x.first);
	x.second = mtx<double>();
	if (psx_choose("used", 2))
		u.second.resize(3, 3);
	roundTrip(x, u, "pair of a number and a matrix");
}
// entries appended one by one
PSX_CASE(entries)
{
	quiet();
	Sz n = 1 + psx_choose("n", PSX_T(3, 4));
	Sz kind = psx_choose("kind", 3);
	std::vector<double> x = vec<double>(n);
	{
		Out o("a.h5", IoNg::ACC_TRUNC);
		for (Sz i = 0; i < n; ++i) {
			if (kind == 0)
				o.writeVectorEntry(x[i], "x", i);
			else if (kind == 1)
				o.writeVectorEntry(std::vector<double>(i, x[i]), "x", i);
			else
				o.writeVectorEntry(std::vector<Cx>(1 + i, Cx(0, x[i])), "x", i);
		}
		finish(o);
	}
	In in("a.h5");
	if (kind == 0) {
		double last = 0;
		in.readLastVectorEntry(last, "x");
		psx_assert(bits(last, x[n - 1]), "last entry");
		std::vector<double> one(1);
		in.read(one[0], "x/0");
		psx_assert(bits(one[0], x[0]), "first entry");
	} else if (kind == 1) {
		std::vector<double> last(5), want(n - 1, x[n - 1]);
		in.readLastVectorEntry(last, "x");
		psx_assert(bits(last, want), "last entry");
		std::vector<std::vector<double>> all;
		in.read(all, "x");
		psx_assert(all.size() == n, "number of entries");
	} else {
		std::vector<std::vector<Cx>> all;
		in.read(all, "x");
		psx_assert(all.size() == n, "number of entries");
		for (Sz i = 0; i < n && i < all.size(); ++i)
			psx_assert(bits(all[i], std::vector<Cx>(1 + i, Cx(0, x[i]))), "entry");
	}
}
// real, complex and whole numbers: reals can be read as complex numbers, nothing else can be mixed
PSX_CASE(kinds)
{
	quiet();
	std::vector<double> r = vec<double>(2);
	std::vector<Cx> c = vec<Cx>(2);
	std::vector<int> k = vec<int>(2);
	Sz on = psx_choose("on disk", 3), to = psx_choose("wanted", 3);
	{
		Out o("a.h5", IoNg::ACC_TRUNC);
		switch (on) {
		case 0: o.write(r, "x"); break;
		case 1: o.write(c, "x"); break;
		default: o.write(k, "x"); break;
		}
		o.write(k, "z");
	}
	{
		In in("a.h5");
		std::vector<double> r2;
		std::vector<Cx> c2;
		std::vector<int> k2;
		bool ok = false;
		switch (to) {
		case 0: ok = readable(in, r2, "x"); break;
		case 1: ok = readable(in, c2, "x"); break;
		default: ok = readable(in, k2, "x"); break;
		}
		psx_observe(ok);
		psx_assert(ok == (on == to || (on == 0 && to == 1)), "kinds of numbers that can be read");
		if (ok && to == 0)
			psx_assert(bits(r2, r), "reals");
		if (ok && to == 1 && on == 1)
			psx_assert(bits(c2, c), "complex numbers");
		if (ok && to == 1 && on == 0)
			psx_assert(bits(c2, std::vector<Cx>({ Cx(r[0], 0), Cx(r[1], 0) })), "reals as complex numbers");
		if (ok && to == 2)
			psx_assert(bits(k2, k), "whole numbers");
		expect(in, "z", k, k2, "the archive can be used after a refused reading");
	}
	Out again("a.h5", IoNg::ACC_TRUNC); // and recreated
}
// a label keeps the kind of what was written last
PSX_CASE(kinds_overwritten)
{
	quiet();
	std::vector<double> r = vec<double>(1 + psx_choose("reals", 2));
	std::vector<Cx> c = vec<Cx>(1 + psx_choose("complex", 2));
	std::vector<int> k = vec<int>(2);
	Sz last = 0;
	{
		Out o("a.h5", IoNg::ACC_TRUNC);
		for (Sz i = 0; i < PSX_T(2, 3); ++i) {
			Sz kind = psx_choose("kind", 3), allow = psx_choose("allow", 2);
			switch (kind) {
			case 0: o.write(r, "x", allow ? ALLOW : NO); break;
			case 1: o.write(c, "x", allow ? ALLOW : NO); break;
			default: o.write(k, "x", allow ? ALLOW : NO); break;
			}
			if (i == 0 || allow)
				last = kind;
		}
	}
	In in("a.h5");
	switch (last) {
	case 0: expect(in, "x", r, std::vector<double>(), "reals written last"); break;
	case 1: expect(in, "x", c, std::vector<Cx>(), "complex numbers written last"); break;
	default: expect(in, "x", k, std::vector<int>(), "whole numbers written last"); break;
	}
}
// histories of writes to two labels
PSX_CASE(history)
{
	quiet();
	static const char* labels[] = { "x", "g/x" };
	bool has[] = { false, false };
	std::vector<double> now[2];
	{
		Out* o = new Out("a.h5", IoNg::ACC_TRUNC);
		o->createGroup("g");
		for (Sz i = 0; i < PSX_T(3, 4); ++i) {
			Sz l = psx_choose("label", 2), allow = psx_choose("allow", 2);
			std::vector<double> v = vec<double>(psx_choose("n", 3));
			if (psx_choose("reopen", 2)) {
				delete o;
				o = new Out("a.h5", IoNg::ACC_RDW);
			}
			o->write(v, labels[l], allow ? ALLOW : NO);
			if (allow || !has[l])
				now[l] = v;
			has[l] = true;
		}
		delete o;
	}
	In in("a.h5");
	for (Sz l = 0; l < 2; ++l) {
		std::vector<double> r(1, 3.0);
		bool ok = readable(in, r, labels[l]);
		psx_assert(ok == has[l], "labels that can be read are those written");
		if (ok && has[l])
			psx_assert(bits(r, now[l]), "the value written last with permission");
	}
}
// opening: truncation, exclusive creation, reading, reading and writing
PSX_CASE(modes)
{
	quiet();
	bool exists[2] = { false, false }; // the file
	int x[2] = { -1, -1 }, y[2] = { -1, -1 }; // what is in it
	static const char* names[] = { "a.h5", "b.h5" };
	Out* o = nullptr;
	for (int i = 0; i < int(PSX_T(3, 4)); ++i) {
		Sz f = psx_choose("file", 2), mode = psx_choose("mode", 4);
		bool want = mode == 0 || (mode == 1 ? !exists[f] : exists[f]);
		IoNg::OpenMode m = mode == 0 ? IoNg::ACC_TRUNC : mode == 1 ? IoNg::ACC_EXCL : IoNg::ACC_RDW;
		bool ok = true;
		if (mode == 3) {
			try {
				In in(names[f]);
				int a = -1, b = -1;
				psx_assert(readable(in, a, "x") == (x[f] >= 0), "content of the archive");
				psx_assert(readable(in, b, "y") == (y[f] >= 0), "content of the archive");
				psx_assert(a == x[f] && b == y[f], "content of the archive");
			} catch (...) {
				ok = false;
			}
			psx_assert(ok == want, "only an existing archive can be read");
			psx_observe(ok);
			continue;
		}
		try {
			if (o && psx_choose("same object", 2)) {
				o->open(names[f], m);
			} else {
				delete o;
				o = nullptr;
				o = new Out(names[f], m);
			}
		} catch (...) {
			ok = false;
		}
		psx_observe(ok);
		psx_assert(ok == want, "which openings succeed");
		if (!ok || !want)
			continue;
		if (mode != 2)
			x[f] = y[f] = -1;
		exists[f] = true;
		psx_assert(o->filename() == names[f], "name of the archive");
		o->write(i, psx_choose("which", 2) ? "x" : "y", ALLOW);
		Sz w = 0;
		(void)w;
		o->close();
		{
			In in(names[f]);
			int a = -1, b = -1;
			bool ha = readable(in, a, "x"), hb = readable(in, b, "y");
			psx_assert((ha && a == i) || (hb && b == i), "what was written is there");
			psx_assert((ha ? a : -1) == i || a == x[f], "the rest is kept");
			psx_assert((hb ? b : -1) == i || b == y[f], "the rest is kept");
			x[f] = ha ? a : -1;
			y[f] = hb ? b : -1;
		}
	}
	delete o;
}
// the mark that an archive was completed
PSX_CASE(completed)
{
	quiet();
	Sz how = psx_choose("how", 5);
	{
		H5::H5File f("a.h5", H5F_ACC_TRUNC);
		if (how != 0)
			f.createGroup("Def/");
		if (how >= 2) {
			hsize_t dims[1] = { how == 2 ? 0ull : 1ull };
			H5::DataSpace s(1, dims);
			H5::DSetCreatPropList p;
			H5::DataSet d = f.createDataSet("Def/Canary", H5::PredType::NATIVE_UCHAR, s, p);
			if (how >= 3) {
				unsigned char c = 170;
				if (how == 4)
					c = psx_u8("mark");
				psx_assume(how == 3 || c != 170);
				d.write(&c, H5::PredType::NATIVE_UCHAR);
			}
		}
	}
	bool ok = true;
	if (psx_choose("by", 2)) {
		try {
			In in("a.h5");
		} catch (...) {
			ok = false;
		}
	} else {
		{
			Out o("b.h5", IoNg::ACC_TRUNC);
		}
		In in("b.h5");
		in.close();
		try {
			in.open("a.h5");
		} catch (...) {
			ok = false;
		}
	}
	psx_observe(ok);
	psx_assert(ok == (how == 3), "only a completed archive is accepted");
	// a refused archive is not held open
	Out o("a.h5", IoNg::ACC_TRUNC);
}
// groups
PSX_CASE(groups)
{
	quiet();
	Out o("a.h5", IoNg::ACC_TRUNC);
	static const char* names[] = { "g", "g/h", "k", "g/h/i" };
	bool has[] = { false, false, false, false };
	for (Sz i = 0; i < 3; ++i) {
		Sz g = psx_choose("group", 4);
		bool want = !has[g] && (g == 0 || g == 2 || (g == 1 && has[0]) || (g == 3 && has[1])), ok = true;
		try {
			o.createGroup(names[g]);
		} catch (...) {
			ok = false;
		}
		psx_assert(ok == want, "a group is created once, within an existing one");
		has[g] = has[g] || ok;
	}
	for (Sz g = 0; g < 4; ++g)
		psx_assert(o.serializer().doesGroupExist(names[g]) == has[g], "groups that exist");
	o.write(3, "n");
	psx_assert(!o.serializer().doesGroupExist("n"), "a value is not a group");
}

// larger objects, a few of the values symbolic
template <typename T>
static T manyAt(Sz i) { return T((i * 37) % 201); }
template <typename T>
static void manyOf()
{
	Sz n = psx_choose("n", 2) ? 33 : 150, how = psx_choose("how", 3), at = psx_choose("symbolic one", 3) * (n / 2 - 1);
	std::vector<T> x(n), y(psx_choose("second", 2) ? 3 : 90), u(psx_choose("used", 2) * 64);
	for (Sz i = 0; i < n; ++i)
		x[i] = manyAt<T>(i);
	for (Sz i = 0; i < y.size(); ++i)
		y[i] = manyAt<T>(i + 5);
	any(x[at]);
	any(y[1]);
	if (how == 0)
		roundTrip(x, u, "vector");
	else
		twice(x, y, u, how == 1, how == 1 ? "vector overwritten" : "vector written twice");
}
PSX_CASE(large)
{
	switch (psx_choose("type", 5)) {
	case 0: manyOf<int>(); break;
	case 1: manyOf<SizeType>(); break;
	case 2: manyOf<double>(); break;
	case 3: manyOf<Cx>(); break;
	default: manyOf<unsigned char>(); break;
	}
}
PSX_CASE(large_objects)
{
	switch (psx_choose("what", 4)) {
	case 0: {
		std::string s(psx_choose("n", 2) ? 77 : 300, ' ');
		for (Sz i = 0; i < s.size(); ++i)
			s[i] = (char)(i * 7 + i / 5);
		s[s.size() / 2] = (char)psx_u8("char");
		roundTrip(s, std::string("earlier"), "string");
		break;
	}
	case 1: {
		Matrix<double> m(11, 7), u(2, 2, 3.0);
		for (Sz i = 0; i < 77; ++i)
			m(i % 11, i / 11) = i * 1.5;
		any(m(7, 5));
		roundTrip(m, u, "matrix");
		break;
	}
	case 2: {
		std::vector<std::vector<double>> v(13), u(4, std::vector<double>(3, 1.0));
		for (Sz i = 0; i < 13; ++i)
			for (Sz j = 0; j < (i * 5) % 12 + 1; ++j)
				v[i].push_back(i * 10. + j);
		any(v[11][2]);
		roundTrip(v, u, "vector of vectors");
		break;
	}
	default: {
		Matrix<Cx> m(9, 13), u(2, 2, 3.0);
		for (Sz i = 0; i < 117; ++i)
			m(i % 9, i / 9) = Cx(i * 1.5, -1. * i);
		Cx z;
		any(z);
		m(5, 11) = z;
		roundTrip(m, u, "matrix");
	}
	}
}
