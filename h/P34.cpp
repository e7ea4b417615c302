// P34: text serialization of containers.
//@ src: Concurrency.cpp MpiNo.cpp
//@ bounds: vectors, stacks and nested vectors of up to 3 (thorough 4) elements, dense matrices up to 2x2 (2x3), sparse matrices up to 2x2 with every pattern, every integer element of up to two digits and either sign (parts, for complex), destinations empty or in use; files of up to 5 labelled records with every order of two labels, every occurrence and every number of digits; files of up to 3 numbers that end with a line end, a blank, a word or the last number; pairs of labels of up to 257 letters that differ in one letter; larger ones of fixed shape and pattern (tens of rows, hundreds of entries) with a few symbolic values
//@ assume: elements are integer valued, so that no digits are lost in printing; labels are not the beginning of one another and file tokens other than labels do not begin with a label; a dense destination in use has the rows of the object read (another number of rows is refused by Matrix::resize)
//@ case large_vectors max_instr=60000000
//@ case large_matrices max_instr=60000000
//@ case large_file max_instr=60000000
#include "mat.h"
#include "Stack.h"
#include "Io/IoSimple.h"
#include <fstream>
#include <sstream>
using namespace PsimagLite;

static const int TOP = 12;
static void sym(int& x) { x = psx_int("v", -TOP, TOP); }
static void sym(Sz& x) { x = psx_range("v", 0, TOP); }
static void sym(double& x) { x = psx_dbl("v", -TOP, TOP); }
static void sym(Cx& x) { symValue(x, -TOP, TOP); }
static void sym(String& x) { x = psx_string("c", 1 + psx_choose("len", 2), "ab1-"); }
template <typename A, typename B>
static void sym(std::pair<A, B>& x)
{
	sym(x.first);
	sym(x.second);
}
template <typename T>
static void sym(std::vector<T>& x)
{
	x.resize(psx_choose("inner", 3));
	for (Sz i = 0; i < x.size(); ++i)
		sym(x[i]);
}
template <typename T>
static bool eq(const T& a, const T& b) { return a == b; }
static bool eq(const Cx& a, const Cx& b) { return same(a, b); }
template <typename T>
static bool eq(const std::vector<T>& a, const std::vector<T>& b)
{
	if (a.size() != b.size())
		return false;
	bool r = true;
	for (Sz i = 0; i < a.size(); ++i)
		r &= eq(a[i], b[i]);
	return r;
}
// what follows the object must be the next thing read
static void after(std::istream& is)
{
	String s;
	is >> s;
	psx_assert(s == "next", "reading stops right after the object");
	psx_observe_str(s);
}
template <typename T>
static typename Vector<T>::Type anyVec(Sz n)
{
	typename Vector<T>::Type v(n);
	for (Sz i = 0; i < n; ++i)
		sym(v[i]);
	return v;
}
template <typename T>
static void vec(Sz top)
{
	typename Vector<T>::Type v = anyVec<T>(psx_choose("n", top + 1)), w(psx_choose("before", 2) * 2);
	std::ostringstream os;
	os << v << "next";
	psx_observe_str(os.str());
	std::istringstream is(os.str());
	is >> w;
	psx_assert(eq(v, w), "the vector read is the vector written");
	after(is);
}
PSX_CASE(vector_int) { vec<int>(PSX_T(2, 3)); }
PSX_CASE(vector_size) { vec<Sz>(PSX_T(2, 3)); }
PSX_CASE(vector_real) { vec<double>(PSX_T(2, 3)); }
PSX_CASE(vector_complex) { vec<Cx>(PSX_T(1, 2)); }
PSX_CASE(vector_string) { vec<String>(PSX_T(2, 3)); }
PSX_CASE(vector_pairs) { vec<std::pair<int, int>>(PSX_T(1, 2)); }
PSX_CASE(vector_vectors) { vec<Vector<int>::Type>(PSX_T(2, 2)); }

template <typename T>
static void stackCase(Sz top)
{
	typename Stack<T>::Type st, w;
	typename Vector<T>::Type v = anyVec<T>(psx_choose("n", top + 1));
	for (Sz i = 0; i < v.size(); ++i)
		st.push(v[i]);
	if (psx_choose("before", 2))
		w.push(T());
	std::ostringstream os;
	os << st << "next";
	psx_assert(st.size() == v.size(), "writing a stack leaves it as it is");
	std::istringstream is(os.str());
	is >> w;
	psx_assert(w.size() == v.size(), "as many elements as written");
	for (Sz i = v.size(); i > 0; --i) {
		psx_assert(eq(w.top(), v[i - 1]), "the elements of the stack in order");
		w.pop();
	}
	after(is);
}
PSX_CASE(stack_int) { stackCase<int>(PSX_T(2, 3)); }
PSX_CASE(stack_complex) { stackCase<Cx>(1); }

template <typename T>
static void dense(Sz top)
{
	Sz r = psx_choose("rows", top + 1), c = psx_choose("cols", top + 1);
	Matrix<T> m(r, c), w;
	for (Sz i = 0; i < r; ++i)
		for (Sz j = 0; j < c; ++j)
			sym(m(i, j));
	if (psx_choose("before", 2))
		w.resize(r, 2);
	std::ostringstream os;
	os << m << "next";
	std::istringstream is(os.str());
	is >> w;
	psx_assert(w.rows() == r && w.cols() == c, "shape of the matrix read");
	for (Sz i = 0; i < r; ++i)
		for (Sz j = 0; j < c; ++j)
			psx_assert(eq(m(i, j), w(i, j)), "the matrix read is the matrix written");
	after(is);
}
PSX_CASE(matrix_real) { dense<double>(2); }
PSX_CASE(matrix_complex) { dense<Cx>(1); }
PSX_CASE(matrix_int) { dense<int>(2); }
PSX_CASE(matrix_empty)
{
	std::istringstream is("");
	Matrix<double> m(1, 1);
	bool thrown = false;
	try {
		is >> m;
	} catch (std::exception&) {
		thrown = true;
	}
	psx_assert(thrown, "nothing to read is an error");
}

template <typename T>
static void sparse(Sz r, Sz c)
{
	D<T> d(0, 0), e(0, 0);
	CrsMatrix<T> m = symSparse<T>(r, c, d, true), w;
	if (psx_choose("before", 2)) {
		Matrix<T> x(2, 3);
		x(1, 2) = 1;
		x(0, 0) = 2;
		w = CrsMatrix<T>(x);
	}
	std::ostringstream os;
	os << m << "next";
	std::istringstream is(os.str());
	is >> w;
	psx_assert(w.rows() == r && w.cols() == c, "shape of the sparse matrix read");
	psx_assert(w.nonZeros() == m.nonZeros(), "stored entries of the sparse matrix read");
	for (Sz i = 0; i < r; ++i) {
		psx_assert(w.getRowPtr(i) == m.getRowPtr(i) && w.getRowPtr(i + 1) == m.getRowPtr(i + 1), "rows of the sparse matrix read");
		for (int k = m.getRowPtr(i); k < m.getRowPtr(i + 1); ++k) {
			psx_assert(w.getCol(k) == m.getCol(k), "columns of the sparse matrix read");
			psx_assert(eq(w.getValue(k), m.getValue(k)), "values of the sparse matrix read");
		}
	}
	after(is);
}
PSX_CASE(sparse_real)
{
	Sz r = 1 + psx_choose("rows", 2), c = 1 + psx_choose("cols", 2);
	sparse<double>(r, c);
}
PSX_CASE(sparse_complex) { sparse<Cx>(1, 2); }
PSX_CASE(sparse_none)
{
	CrsMatrix<double> m, w;
	if (psx_choose("before", 2))
		w = CrsMatrix<double>(Matrix<double>(2, 3));
	std::ostringstream os;
	os << m << "next";
	std::istringstream is(os.str());
	is >> w;
	psx_assert(w.rows() == 0 && w.cols() == 0 && w.nonZeros() == 0, "an empty sparse matrix is read as empty");
	after(is);
}

// ------------------------------------------------------------------ labelled records
static const char* g_file = "records.txt";
typedef Vector<int>::Type Vi;
struct Records {
	std::vector<int> label; // which of the two labels
	std::vector<Vi> v;
	Sz howMany(int l) const
	{
		Sz n = 0;
		for (Sz i = 0; i < label.size(); ++i)
			n += label[i] == l;
		return n;
	}
	Sz nth(int l, Sz k) const
	{
		for (Sz i = 0; i < label.size(); ++i)
			if (label[i] == l && k-- == 0)
				return i;
		return ~Sz(0);
	}
};
static const char* g_label[2] = { "#Avector", "Weights" };
static Records records(Sz top, Sz inner)
{
	Records r;
	IoSimple::Out out { String(g_file) };
	Sz n = 1 + psx_choose("records", top);
	for (Sz i = 0; i < n; ++i) {
		r.label.push_back(psx_choose("label", 2));
		Vi v(psx_choose("size", inner));
		for (Sz j = 0; j < v.size(); ++j)
			v[j] = psx_int("v", 0, 9) + 10 * i;
		r.v.push_back(v);
		out.write(v, g_label[r.label[i]]);
	}
	out.printline("end of the file");
	return r;
}
static void readOccurrence(Sz top, Sz inner)
{
	Records r = records(top, inner);
	int l = psx_choose("asked", 2);
	Sz have = r.howMany(l);
	long level = (long)psx_choose("occurrence", top + 2) - 1; // -1: the last one
	IoSimple::In in { String(g_file) };
	Vi w(psx_choose("before", 2), 7);
	bool thrown = false;
	try {
		in.read(w, g_label[l], level, true);
	} catch (std::exception&) {
		thrown = true;
	}
	bool there = level < 0 ? have > 0 : (Sz)level < have;
	psx_assert(thrown == !there, "a record is delivered if there is such an occurrence and it is an error otherwise");
	psx_observe(thrown);
	if (!there)
		return;
	Sz which = r.nth(l, level < 0 ? have - 1 : (Sz)level);
	psx_assert(eq(w, r.v[which]), "the record asked for");
	// reading goes on after that record
	if (which + 1 < r.v.size()) {
		int l2 = r.label[which + 1];
		in.read(w, g_label[l2], 0, true);
		psx_assert(eq(w, r.v[which + 1]), "the next record");
	}
}
PSX_CASE(records_occurrence) { readOccurrence(3, PSX_T(2, 3)); }
PSX_CASE(records_count)
{
	Records r = records(PSX_T(3, 4), 2);
	IoSimple::In in { String(g_file) };
	for (int l = 0; l < 2; ++l)
		psx_assert(in.count(g_label[l]) == r.howMany(l), "number of records with a label");
	Vi w;
	in.read(w, g_label[r.label[0]]);
	psx_assert(eq(w, r.v[0]), "reading starts from the beginning after counting");
}
// the last record can be looked for first and read later
PSX_CASE(records_last)
{
	Records r = records(PSX_T(3, 4), 2);
	int l = psx_choose("asked", 2);
	psx_assume(r.howMany(l) > 0);
	IoSimple::In in { String(g_file) };
	std::pair<String, SizeType> p = in.advance(g_label[l], IoSimple::In::LAST_INSTANCE);
	psx_assert(p.first == g_label[l] && p.second == r.howMany(l), "the label found and how often");
	Vi w;
	in.read(w, g_label[l]);
	psx_assert(eq(w, r.v[r.nth(l, r.howMany(l) - 1)]), "the next one read is the last");
}
PSX_CASE(records_mixed)
{
	// scalars, vectors, matrices and stacks in one file, read in the order written
	int a;
	double b;
	Cx c;
	sym(a);
	sym(b);
	symValue(c, -3, 3);
	Vi v = anyVec<int>(psx_choose("n", 2));
	Matrix<double> m(1, 2);
	sym(m(0, 1));
	Stack<int>::Type st;
	st.push(a);
	st.push(4);
	{
		IoSimple::Out out { String(g_file) };
		out.write(a, "A");
		out.write(v, "Vector");
		out.write(b, "B");
		out.write(m, "Matrix");
		out.write(st, "Stack");
		out.write(c, "C");
	}
	IoSimple::In in { String(g_file) };
	int a2 = 0;
	double b2 = 0;
	Cx c2;
	Vi v2;
	Matrix<double> m2;
	Stack<int>::Type st2;
	in.readline(a2, "A=");
	in.read(v2, "Vector");
	in.readline(b2, "B=");
	in.read(m2, "Matrix");
	in.read(st2, "Stack");
	in.readline(c2, "C=");
	psx_assert(a == a2 && b == b2, "numbers");
	psx_assert(eq(c, c2), "complex number");
	psx_assert(eq(v, v2), "vector");
	psx_assert(m2.rows() == 1 && m2.cols() == 2 && m2(0, 1) == m(0, 1) && m2(0, 0) == m(0, 0), "matrix");
	psx_assert(st2.size() == 2 && st2.top() == 4, "stack");
	st2.pop();
	psx_assert(st2.top() == a, "stack");
}
PSX_CASE(numbers_occurrence)
{
	Sz n = 1 + psx_choose("records", 3);
	std::vector<int> label, v;
	{
		IoSimple::Out out { String(g_file) };
		for (Sz i = 0; i < n; ++i) {
			label.push_back(psx_choose("label", 2));
			v.push_back(psx_int("v", -TOP, TOP));
			out.write(v[i], label[i] ? "Energy" : "#Weight");
		}
	}
	int l = psx_choose("asked", 2);
	long level = (long)psx_choose("occurrence", 4) - 1;
	std::vector<int> mine;
	for (Sz i = 0; i < n; ++i)
		if (label[i] == l)
			mine.push_back(v[i]);
	IoSimple::In in { String(g_file) };
	int x = 77;
	bool thrown = false;
	try {
		in.readline(x, l ? "Energy=" : "#Weight=", level);
	} catch (std::exception&) {
		thrown = true;
	}
	bool there = level < 0 ? mine.size() > 0 : (Sz)level < mine.size();
	psx_assert(thrown == !there, "a number is delivered if there is such an occurrence and it is an error otherwise");
	if (there)
		psx_assert(x == mine[level < 0 ? mine.size() - 1 : level], "the number asked for");
	psx_observe(thrown);
}
// lines built piece by piece are written as built
PSX_CASE(lines)
{
	std::string a = psx_string("a", psx_choose("first", 4), "xy"), b = psx_string("b", psx_choose("second", 4), "zw");
	{
		IoSimple::Out out { String(g_file) };
		OstringStream msg(6);
		msg() << a;
		out.printline(msg);
		msg() << b;
		out.printline(msg);
		out.printline(String("end"));
	}
	char buf[100];
	Sz n = psx_get_file(g_file, buf, 100);
	psx_assert(n < 100, "the file was written");
	psx_assert(std::string(buf, n) == a + "\n" + b + "\nend\n", "the lines written");
}

// larger objects with a few symbolic elements
template <typename T>
static T roundTrip(const T& x, T w)
{
	std::ostringstream os;
	os << x << "next";
	std::istringstream is(os.str());
	is >> w;
	after(is);
	return w;
}
template <typename T>
static void bigVector(Sz n)
{
	typename Vector<T>::Type v(n), w(psx_choose("before", 2) * 50);
	Lcg g(n);
	for (Sz i = 0; i < n; ++i)
		lcgValue(g, v[i]);
	sym(v[n / 2]);
	w = roundTrip(v, w);
	psx_assert(eq(v, w), "the vector read is the vector written");
}
PSX_CASE(large_vectors)
{
	static const Sz lengths[] = { 9, 10, 17, 100 };
	Sz n = lengths[psx_choose("n", 4)];
	if (psx_choose("complex", 2))
		bigVector<Cx>(n);
	else
		bigVector<double>(n);
}
PSX_CASE(large_matrices)
{
	D<double> d = bigDense<double>(11, 7, 1, 0), e(0, 0);
	sym(d.d[40]);
	Matrix<double> m = toMatrix(d);
	checkIs(roundTrip(m, Matrix<double>()), d, "the matrix read is the matrix written");
	CrsMatrix<double> a = bigSparse<double>(13, 17, e, 2, 3, 0);
	a.setValues(5, psx_dbl("v", 1, 12));
	for (int k = 0; k < 3; ++k)
		if (a.getRowPtr(k) <= 5 && a.getRowPtr(k + 1) > 5)
			e(k, a.getCol(5)) = a.getValue(5);
	CrsMatrix<double> w;
	w.makeDiagonal(3, 1.0);
	checkIs(roundTrip(a, w), e, "the sparse matrix read is the one written");
}
PSX_CASE(large_file)
{
	Sz n = 12 + psx_choose("n", 2) * 20;
	std::vector<Vi> v(n);
	std::vector<int> label(n);
	{
		IoSimple::Out out { String(g_file) };
		for (Sz i = 0; i < n; ++i) {
			label[i] = (i * 5 / 3) % 2;
			v[i].resize((i * 7) % 13);
			for (Sz j = 0; j < v[i].size(); ++j)
				v[i][j] = 100 * i + j;
			if (i == n - 2)
				v[i].push_back(psx_int("v", 0, 9));
			out.write(v[i], g_label[label[i]]);
		}
	}
	IoSimple::In in { String(g_file) };
	for (int l = 0; l < 2; ++l) {
		Sz have = 0;
		for (Sz i = 0; i < n; ++i) {
			if (label[i] != l)
				continue;
			in.rewind();
			Vi w;
			in.read(w, g_label[l], have++, true);
			psx_assert(eq(w, v[i]), "the record asked for");
		}
		in.rewind();
		psx_assert(in.count(g_label[l]) == have, "number of records with a label");
		in.rewind();
		Vi w;
		in.read(w, g_label[l], IoSimple::In::LAST_INSTANCE, true);
		Sz i = n - 1;
		while (label[i] != l)
			--i;
		psx_assert(eq(w, v[i]), "the last record");
	}
}

// long labels that differ in one letter
PSX_CASE(long_labels)
{
	static const Sz lens[] = { 2, 9, 17, 33, 65, 129, 257 };
	Sz n = lens[psx_choose("length", 7)], where = psx_choose("where", 3), order = psx_choose("order", 2);
	String a(n, 'x');
	for (Sz i = 0; i < n; ++i)
		a[i] = 'a' + (i * 7) % 26;
	String b = a;
	Sz p = where == 0 ? 0 : where == 1 ? n / 2 : n - 1;
	b[p] = a[p] == 'z' ? 'b' : 'z';
	Vi u(2), v(3), x;
	for (Sz i = 0; i < 3; ++i)
		v[i] = psx_int("v", 0, 9) + 10;
	for (Sz i = 0; i < 2; ++i)
		u[i] = psx_int("u", 0, 9) + 20;
	{
		IoSimple::Out out { String(g_file) };
		if (order)
			out.write(u, a), out.write(v, b);
		else
			out.write(v, b), out.write(u, a);
		out.close();
	}
	IoSimple::In in { String(g_file) };
	in.read(x, a);
	psx_assert(eq(x, u), "each label has its own values, however long");
	in.rewind();
	in.read(x, b);
	psx_assert(eq(x, v), "each label has its own values, however long");
}

// numbers in a file that may end with its last word
PSX_CASE(numbers_end)
{
	Sz n = 1 + psx_choose("numbers", 3);
	std::string text;
	std::vector<int> label, v;
	for (Sz i = 0; i < n; ++i) {
		label.push_back(psx_choose("label", 2));
		v.push_back(psx_int("v", -TOP, TOP));
		std::ostringstream s;
		s << (label[i] ? "Energy=" : "#Weight=") << v[i];
		text += s.str() + (i + 1 < n ? "\n" : "");
	}
	static const char* ends[] = { "", "\n", " ", " x" };
	text += ends[psx_choose("end", 4)];
	psx_put_file("numbers.txt", text.data(), text.size());
	int l = psx_choose("asked", 2);
	long level = (long)psx_choose("occurrence", 4) - 1;
	std::vector<int> mine;
	for (Sz i = 0; i < n; ++i)
		if (label[i] == l)
			mine.push_back(v[i]);
	IoSimple::In in { String("numbers.txt") };
	int x = 77;
	bool thrown = false;
	try {
		in.readline(x, l ? "Energy=" : "#Weight=", level);
	} catch (std::exception&) {
		thrown = true;
	}
	bool there = level < 0 ? mine.size() > 0 : (Sz)level < mine.size();
	psx_assert(thrown == !there, "a number is delivered if there is such an occurrence and it is an error otherwise");
	if (there)
		psx_assert(x == mine[level < 0 ? mine.size() - 1 : level], "the number asked for");
	psx_observe(thrown);
}
