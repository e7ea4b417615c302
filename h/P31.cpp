// P31: spectral functions assemble and accumulate exactly what they store.
//@ src: PsimagLite.cpp Matrix.cpp ProgressIndicator.cpp Concurrency.cpp MpiNo.cpp
//@ bounds: tridiagonal matrices of 1..6/9 levels with symbolic coefficients; collections of 0..4 plots of 0..4 points with symbolic frequencies and values; real spectral functions of 1..3 levels with a symbolic weight on real and Matsubara grids listed in the harness; coefficients are integers -100..100 held as doubles; functions of 1..2/3 levels and collections of one or two of them saved and loaded, one number at a time in -12..12 and the others in 0..9; dense forms of 17 and 40 levels, collections of 3 and 15 plots of 11 and 64 points, and functions of 1 and 12 levels with listed numbers of ten digits saved, with a symbolic value each; a saved function of 1..3 levels with a complex weight, one part 0..9 and the other -3, 0 or 3
//@ case complex_weight max_instr=30000000
//@ case large_dense max_instr=60000000
//@ case large_collection max_instr=60000000
//@ case saved_digits max_instr=60000000
//@ assume: diagonalisation (LAPACK) is replaced by a stand-in that returns the diagonal as eigenvalues and the matrix itself as eigenvectors
#include "mat.h"
#include "TridiagonalMatrix.h"
#include "ParametersForSolver.h"
#include "ContinuedFraction.h"
#include "ContinuedFractionCollection.h"
using namespace PsimagLite;
typedef std::complex<double> C;

extern "C" void dsyev_(char*, char*, int* n, double* a, int* lda, double* w, double* work, int* lwork, int* info)
{
	*info = 0;
	work[0] = 3;
	if (*lwork < 0)
		return;
	for (int i = 0; i < *n; ++i)
		w[i] = a[i + i * *lda];
}
static unsigned long bits(double x)
{
	unsigned long u;
	memcpy(&u, &x, 8);
	return u;
}
static bool sameC(C a, C b) { return bits(a.real()) == bits(b.real()) && bits(a.imag()) == bits(b.imag()); }

template <typename M>
static void tridiagonal(M& m)
{
	SizeType n = 1 + psx_choose("levels", PSX_T(6, 9)), how = psx_choose("how", 3);
	SizeType part = psx_choose("part", 2) ? 1 + psx_choose("levels asked for", n) : 0;
	TridiagonalMatrix<double> t;
	std::vector<double> a(n), b(n);
	double same = psx_dbl("value", -100, 100);
	if (how == 0)
		t.resize(n, 0);
	if (how == 2)
		t.resize(n, same);
	for (SizeType i = 0; i < n; ++i) {
		a[i] = how == 2 ? same : psx_dbl("a", -100, 100);
		b[i] = how == 2 ? same : psx_dbl("b", -100, 100);
		if (how == 0) {
			t.a(i) = a[i];
			t.b(i) = b[i];
		} else if (how == 1)
			t.push(a[i], b[i]);
	}
	psx_assert(t.size() == n, "number of levels");
	const TridiagonalMatrix<double>& ct = t;
	for (SizeType i = 0; i < n; ++i) {
		psx_assert(ct.a(i) == a[i], "stored diagonal");
		psx_assert(ct.b(i) == b[i], "stored off-diagonal");
	}
	t.buildDenseMatrix(m, part);
	SizeType k = part ? part : n;
	psx_assert(m.rows() == k && m.cols() == k, "size of the dense form");
	for (SizeType i = 0; i < k; ++i)
		for (SizeType j = 0; j < k; ++j) {
			double want = i == j ? a[i] : i + 1 == j ? b[j] : j + 1 == i ? b[i] : 0;
			psx_assert(m(i, j) == want, "entry of the dense form");
		}
}
PSX_CASE(dense)
{
	Matrix<double> m;
	tridiagonal(m);
}
PSX_CASE(dense_complex)
{
	Matrix<C> m;
	tridiagonal(m);
}
PSX_CASE(dense_reused)
{
	// the matrix held something
	Sz rows = 1 + psx_choose("rows", 4), cols = 1 + psx_choose("cols", 4);
	Matrix<double> m(rows, cols);
	for (SizeType i = 0; i < m.rows(); ++i)
		for (SizeType j = 0; j < m.cols(); ++j)
			m(i, j) = 7;
	tridiagonal(m);
}
// ---- collections
typedef std::vector<std::pair<double, C>> Plot;
struct Fraction {
	typedef C ComplexType;
	typedef TridiagonalMatrix<double> TridiagonalMatrixType;
	typedef Matrix<double> MatrixType;
	typedef Plot PlotDataType;
	typedef int PlotParamsType;
	Plot data;
	int expects = 0;
	void plot(Plot& r, const int& p) const
	{
		psx_assert(p == expects, "the parameters are passed on");
		psx_assert(r.size() == 0, "each plot starts from nothing");
		r = data;
	}
	FreqEnum freqType() const { return FREQ_REAL; }
};
PSX_CASE(collection)
{
	SizeType n = psx_choose("plots", PSX_T(4, 5)), points = psx_choose("points", PSX_T(4, 5));
	SizeType odd = psx_choose("odd plot", n + 1), how = odd < n ? psx_choose("how", 3) : 0;
	std::vector<double> w(points);
	for (SizeType k = 0; k < points; ++k)
		w[k] = psx_dbl("frequency", -100, 100);
	std::vector<C> sum(points);
	ContinuedFractionCollection<Fraction> cc(FREQ_REAL);
	std::vector<Fraction> kept;
	double other = 0;
	for (SizeType i = 0; i < n; ++i) {
		Fraction f;
		f.expects = 5;
		for (SizeType k = 0; k < points; ++k) {
			double x = psx_dbl("re", -100, 100), y = psx_dbl("im", -100, 100);
			f.data.push_back({ w[k], C(x, y) });
			sum[k] += C(x, y);
		}
		if (i == odd && how == 0)
			f.data.push_back({ 0, C(1, 1) });
		if (i == odd && how == 1 && points)
			f.data.pop_back();
		if (i == odd && how == 2 && points) {
			other = psx_dbl("other frequency", -100, 100);
			f.data[points - 1].first = other;
		}
		cc.push(f);
		kept.push_back(f);
	}
	psx_assert(cc.size() == n && cc.freqType() == FREQ_REAL, "size");
	for (SizeType i = 0; i < n; ++i) {
		Plot one;
		cc.plotOne(i, one, 5);
		psx_assert(one.size() == kept[i].data.size(), "plot of one");
		for (SizeType k = 0; k < one.size(); ++k)
			psx_assert((one[k].first == kept[i].data[k].first) & (one[k].second.real() == kept[i].data[k].second.real()), "plot of one");
	}
	Plot r;
	bool ok = false;
	try {
		cc.plot(r, 5);
		ok = true;
	} catch (std::exception&) {
	}
	bool differ = odd < n && n > 1 && (how == 0 ? true : how == 1 ? points > 0 : points > 0 && other != w[points - 1]);
	// an empty plot is the same as no plot while nothing was accumulated
	if (differ && how == 0 && points == 0)
		differ = odd == 0 || odd + 1 < n || false;
	if (odd < n && points <= 1 && how < 2)
		return; // plots without points: left open
	psx_assert(ok == !differ, "different grids, and only those, are errors");
	if (!ok || odd < n)
		return;
	psx_assert(r.size() == (n ? points : 0), "number of points");
	for (SizeType k = 0; k < r.size(); ++k) {
		psx_assert(r[k].first == w[k], "frequency of the point");
		psx_assert(r[k].second.real() == sum[k].real(), "sum of the real parts");
		psx_assert(r[k].second.imag() == sum[k].imag(), "sum of the imaginary parts");
	}
}
// ---- plots of spectral functions
typedef TridiagonalMatrix<double> Tri;
typedef ContinuedFraction<Tri> Cf;
struct Grid {
	double w1, w2, dw, delta, beta;
	SizeType mats;
	std::vector<double> w;
};
static Grid grid()
{
	static const Grid all[] = { { 0, 1, 0.25, 0.5, 1, 0, { 0, 0.25, 0.5, 0.75 } },
		                    { -1, 1, 0.5, 0.5, 1, 0, { -1, -0.5, 0, 0.5 } },
		                    { 2, 2.5, 0.5, 0.25, 1, 0, { 2 } },
		                    { 0, 0, 0.5, 0.25, 1, 0, {} },
		                    { 0, 0.5, 1, 0.25, 1, 0, {} },
		                    { 0, 2.5, 1, 0.25, 1, 0, { 0, 1 } },
		                    { 0, 1, 0.25, 0.5, 2, 1, { M_PI / 2 } },
		                    { 0, 1, 0.25, 0.5, 2, 3, { M_PI / 2, 3 * M_PI / 2, 5 * M_PI / 2 } } };
	return all[psx_choose("grid", 8)];
}
static Tri levels(std::vector<double>& e, std::vector<double>& in)
{
	SizeType n = 1 + psx_choose("levels", 3);
	Tri t;
	for (SizeType i = 0; i < n; ++i)
		t.push(i + 1, 2 * i + 3);
	// what the stand-in finds
	e.resize(n);
	in.assign(n, 0);
	for (SizeType i = 0; i < n; ++i)
		e[i] = i + 1;
	in[0] = 1;
	if (n > 1)
		in[1] = 25;
	return t;
}
PSX_CASE(plot)
{
	Grid g = grid();
	std::vector<double> e, in;
	Tri t = levels(e, in);
	double weight = psx_dbl("weight", -100, 100);
	int which = psx_choose("energy and sign", PSX_T(3, 4));
	int isign = which & 1 ? -1 : 1;
	double Eg = which & 2 ? 0 : -1.5;
	Cf cf, cf2;
	cf.set(t, Eg, weight, isign);
	PlotParams<double> p(g.w1, g.w2, g.dw, g.delta, g.beta, g.mats);
	psx_assert(cf.size() == t.size() && cf.freqType() == FREQ_REAL, "size");
	Plot r;
	cf.plot(r, p);
	psx_assert(r.size() == g.w.size(), "one point per frequency of the grid");
	for (SizeType k = 0; k < r.size(); ++k) {
		double d = r[k].first - g.w[k];
		psx_assert(d < 1e-12 && d > -1e-12, "frequencies of the grid");
		C z = g.mats ? C(g.delta, r[k].first) : C(r[k].first, g.delta);
		C want = 0;
		if (weight != 0) {
			C s = 0;
			for (SizeType l = 0; l < e.size(); ++l)
				s += in[l] / (z - isign * (Eg - e[l]));
			want = s * C(weight, 0);
		}
		psx_assert(sameC(r[k].second, want) || r[k].second == want, "sum of the poles with their intensities and the weight");
	}
	// into a table that has its size already: as many points as fit, the rest stays
	Plot q(r.size() + psx_choose("table", 2), std::pair<double, C>(-7, C(3, 4)));
	cf.plot(q, p);
	for (SizeType k = 0; k < q.size(); ++k)
		if (k < r.size())
			psx_assert(q[k].first == r[k].first && (sameC(q[k].second, r[k].second) || q[k].second == r[k].second), "points of a sized table");
		else
			psx_assert((q[k].first == -7 && q[k].second == C(3, 4)) || (!g.mats && q[k].first < g.w2), "no point beyond the grid");
	// a collection of the function and itself
	ContinuedFractionCollection<Cf> cc(FREQ_REAL);
	cc.push(cf);
	cc.push(cf);
	Plot s;
	cc.plot(s, p);
	psx_assert(s.size() == r.size(), "points of the collection");
	for (SizeType k = 0; k < s.size() && k < r.size(); ++k) {
		C want = r[k].second + r[k].second;
		psx_assert(s[k].first == r[k].first, "frequency of the collection");
		psx_assert(sameC(s[k].second, want) || s[k].second == want, "the collection adds up");
	}
}
// ---- functions saved and loaded
static const char* const g_file = "psx_p31.txt";
static std::string textOf(const Cf& cf)
{
	{
		IoSimple::Out out { String("psx_p31_again.txt") };
		cf.write(out, "");
	}
	std::string t;
	std::ifstream f("psx_p31_again.txt");
	std::string line;
	while (std::getline(f, line))
		t += line + "\n";
	return t;
}
// the same spectral function: all it says of itself, and its values
static bool same(const Cf& a, const Cf& b, bool plots)
{
	bool ok = a.size() == b.size() && a.freqType() == b.freqType() && textOf(a) == textOf(b);
	if (!plots)
		return ok;
	for (int k = 0; k < 2; ++k) {
		Plot x, y;
		PlotParams<double> p(-1, 1, 1, 0.5, 4, k ? 2 : 0);
		a.plot(x, p);
		b.plot(y, p);
		ok = ok && x.size() == y.size() && (x.size() == 2 || !k);
		for (SizeType i = 0; i < x.size() && i < y.size(); ++i)
			ok = ok && x[i].first == y[i].first && (sameC(x[i].second, y[i].second) || x[i].second == y[i].second);
	}
	return ok;
}
// exact: every number symbolic; else everything but the weight enumerated and the values compared too
static Cf someFunction(bool exact, SizeType levels, bool narrow = false)
{
	Cf cf(psx_choose("kind", 2) ? FREQ_MATSUBARA : FREQ_REAL);
	Tri t;
	SizeType wide = exact && !narrow ? psx_choose("wide", 2 * levels + 2) : 0; // the number that may be negative or longer
	if (narrow)
		wide = 1000;
	for (SizeType j = 0; j < levels; ++j) {
		double a, b = 1 + j;
		if (exact) {
			a = psx_dbl("a", wide == 2 * j ? -12 : 0, wide == 2 * j ? 12 : 9);
			b = psx_dbl("b", wide == 2 * j + 1 ? -12 : 0, wide == 2 * j + 1 ? 12 : 9);
		} else {
			a = j || narrow ? 0.25 : 0.5 * psx_choose("level", 2) - 0.5;
		}
		t.push(a, b);
	}
	double Eg = narrow ? 2.5 : exact ? psx_dbl("Eg", wide == 2 * levels ? -12 : 0, wide == 2 * levels ? 12 : 9) : psx_choose("Eg", 2) * 1.25;
	double w = psx_dbl("w", !exact ? 0 : wide == 2 * levels + 1 ? -12 : 1, exact && wide == 2 * levels + 1 ? 12 : 2);
	cf.set(t, Eg, w, psx_choose("sign", 2) ? -1 : 1);
	return cf;
}
static void savedOne(bool exact)
{
	Cf cf(someFunction(exact, 1 + psx_choose("levels", PSX_T(2, 3))));
	{
		IoSimple::Out out { String(g_file) };
		cf.write(out, "");
	}
	IoSimple::In in { String(g_file) };
	Cf back(in);
	psx_assert(same(cf, back, !exact), "the function saved");
	psx_observe(back.size());
}
PSX_CASE(saved_one) { savedOne(true); }
PSX_CASE(saved_values) { savedOne(false); }
PSX_CASE(saved_collections)
{
	SizeType files = 1 + psx_choose("collections", 2), level = psx_choose("asked", files);
	bool exact = psx_choose("exact", 2);
	psx_assume(!exact || files == 1 || PSX_T(0, 1));
	std::vector<Cf> mine;
	{
		IoSimple::Out out { String(g_file) };
		for (SizeType c = 0; c < files; ++c) {
			SizeType n = c == level ? 1 + psx_choose("functions", 2) : 1;
			ContinuedFractionCollection<Cf> cc(FREQ_REAL);
			for (SizeType i = 0; i < n; ++i) {
				if (c != level) {
					Tri t;
					t.push(5, 6);
					Cf other(FREQ_REAL);
					other.set(t, 7, 8, 1);
					cc.push(other);
					continue;
				}
				Cf cf(someFunction(exact, 1 + (i + psx_choose("levels", PSX_T(1, 2))) % 2, true));
				cc.push(cf);
				mine.push_back(cf);
			}
			cc.write(out);
		}
	}
	IoSimple::In in { String(g_file) };
	ContinuedFractionCollection<Cf> cc(in, level);
	psx_assert(cc.size() == mine.size(), "as many functions as saved");
	psx_assert(cc.freqType() == mine[mine.size() - 1].freqType(), "kind of frequencies");
	if (!exact) {
		PlotParams<double> p(0, 1, 0.5, 0.25, 2, 2);
		for (SizeType i = 0; i < mine.size() && i < cc.size(); ++i) {
			Plot x, y;
			cc.plotOne(i, x, p);
			mine[i].plot(y, p);
			bool ok = x.size() == y.size();
			for (SizeType k = 0; k < x.size() && k < y.size(); ++k)
				ok = ok && x[k].first == y[k].first && (sameC(x[k].second, y[k].second) || x[k].second == y[k].second);
			psx_assert(ok, "the function saved");
		}
	}
	{
		IoSimple::Out a { String("psx_p31_b.txt") };
		cc.write(a);
	}
	{
		ContinuedFractionCollection<Cf> again(FREQ_REAL);
		for (SizeType i = 0; i < mine.size(); ++i)
			again.push(mine[i]);
		IoSimple::Out a { String("psx_p31_c.txt") };
		again.write(a);
	}
	std::ifstream b("psx_p31_b.txt"), c("psx_p31_c.txt");
	std::string x, y;
	while (std::getline(b, x)) {
		psx_assert(!!std::getline(c, y), "as much text");
		psx_assert(x == y, "the collection saved again is the same");
	}
	psx_assert(!std::getline(c, y), "no more text");
	psx_observe(cc.size());
}

// more levels, plots of more points, and numbers of many digits
PSX_CASE(large_dense)
{
	SizeType n = psx_choose("levels", 2) ? 17 : 40, part = psx_choose("part", 2) ? n - 3 : 0, at = psx_choose("symbolic one", 3) * (n / 2 - 1);
	TridiagonalMatrix<double> t;
	std::vector<double> a(n), b(n);
	for (SizeType i = 0; i < n; ++i) {
		a[i] = i == at ? psx_dbl("a", -100, 100) : i * 1.5;
		b[i] = i == at ? psx_dbl("b", -100, 100) : 7. - i;
		t.push(a[i], b[i]);
	}
	Matrix<double> m(3, 3);
	t.buildDenseMatrix(m, part);
	SizeType k = part ? part : n;
	psx_assert(m.rows() == k && m.cols() == k, "size of the dense form");
	bool ok = true;
	for (SizeType i = 0; i < k; ++i)
		for (SizeType j = 0; j < k; ++j)
			ok &= m(i, j) == (i == j ? a[i] : i + 1 == j ? b[j] : j + 1 == i ? b[i] : 0);
	psx_assert(ok, "entry of the dense form");
}
PSX_CASE(large_collection)
{
	SizeType n = 3 + psx_choose("plots", 2) * 12, points = psx_choose("points", 2) ? 11 : 64, k0 = psx_choose("symbolic one", 3) * (points / 2 - 1);
	std::vector<C> sum(points);
	ContinuedFractionCollection<Fraction> cc(FREQ_REAL);
	for (SizeType i = 0; i < n; ++i) {
		Fraction f;
		f.expects = 5;
		for (SizeType k = 0; k < points; ++k) {
			double x = k == k0 ? psx_dbl("re", -100, 100) : (double)(k * i), y = 3. * k - i;
			f.data.push_back({ 0.5 * k, C(x, y) });
			sum[k] += C(x, y);
		}
		cc.push(f);
	}
	Plot r;
	cc.plot(r, 5);
	psx_assert(r.size() == points, "number of points");
	bool ok = true;
	for (SizeType k = 0; k < points && k < r.size(); ++k)
		ok &= r[k].first == 0.5 * k && sameC(r[k].second, sum[k]);
	psx_assert(ok, "sum of the plots");
}
PSX_CASE(saved_digits)
{
	// numbers of up to ten digits and very small and large ones
	static const double numbers[] = { 0.1234567891, -98765.43211, 1.5e-7, -3.25e9, 1. / 1024, 1234567.25 };
	Cf cf(psx_choose("kind", 2) ? FREQ_MATSUBARA : FREQ_REAL);
	Tri t;
	SizeType levels = 1 + psx_choose("levels", 2) * 11, first = psx_choose("first", 6);
	for (SizeType i = 0; i < levels; ++i)
		t.push(numbers[(first + i) % 6], numbers[(first + 2 * i + 1) % 6]);
	bool values = psx_choose("values", 2);
	double w = values ? 2.5 : psx_dbl("w", 1, 9);
	cf.set(t, numbers[(first + 3) % 6], w, 1);
	{
		IoSimple::Out out { String(g_file) };
		cf.write(out, "");
	}
	IoSimple::In in { String(g_file) };
	Cf back(in);
	psx_assert(same(cf, back, false), "the function saved");
	if (!values)
		return;
	Plot x, y;
	PlotParams<double> p(-1, 1, 1, 0.5, 4, 0);
	cf.plot(x, p);
	back.plot(y, p);
	bool ok = x.size() == y.size();
	for (SizeType i = 0; i < x.size() && i < y.size(); ++i) {
		double dr = x[i].second.real() - y[i].second.real(), di = x[i].second.imag() - y[i].second.imag();
		double size = 1e-8 * (std::abs(x[i].second.real()) + std::abs(x[i].second.imag()));
		ok = ok && x[i].first == y[i].first && dr <= size && -dr <= size && di <= size && -di <= size;
	}
	psx_assert(ok, "the values of the function saved, to the digits written");
}

// a saved function whose weight is a complex number, possibly without real part
PSX_CASE(complex_weight)
{
	int part = psx_choose("symbolic part", 2), one = psx_int("weight", 0, 9), other = (int)psx_choose("other part", 3) * 3 - 3;
	int re = part ? one : other, im = part ? other : one;
	std::vector<double> e, in;
	Cf cf;
	Tri t = levels(e, in);
	int isign = psx_choose("sign", 2) ? -1 : 1;
	cf.set(t, 0.5, 1, isign);
	std::string text = textOf(cf), edited;
	for (std::string::size_type i = 0; i < text.size();) {
		std::string::size_type j = text.find('\n', i);
		std::string line = text.substr(i, j - i);
		i = j + 1;
		if (line.find("#CFWeight=") == 0)
			line = "#CFWeight=(" + std::string(re < 0 ? "-" : "") + char('0' + (re < 0 ? -re : re)) + "," + std::string(im < 0 ? "-" : "") + char('0' + (im < 0 ? -im : im)) + ")";
		edited += line + "\n";
	}
	{
		std::ofstream o(g_file);
		o << edited;
	}
	IoSimple::In file { String(g_file) };
	Cf back(file);
	C z(0.25, 0.5), s = 0;
	if (re != 0 || im != 0)
		for (SizeType l = 0; l < e.size(); ++l)
			s += in[l] / (z - isign * (0.5 - e[l]));
	C want = re != 0 || im != 0 ? s * C(re, im) : C(0, 0), got = back.iOfOmega(z, 0.5, isign);
	psx_assert(sameC(got, want) || got == want, "the poles with a complex weight");
	psx_observe(back.size());
}
