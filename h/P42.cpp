// P42: kernel polynomial method: moments, their plot, and their files.
//@ src: PsimagLite.cpp ProgressIndicator.cpp Concurrency.cpp MpiNo.cpp
//@ bounds: moments: every symmetric matrix of 1..3/4 rows and every hermitian one of 1..2, every scaling, every starting vector, 1..3/5 steps; 5/7 rows and 4/5 steps with a fixed matrix and every starting vector; scaling: every lowest eigenvalue -99..99 found, with the highest 2..24/100 above it; plot: 2..8/12 moments (one of them -15..15, the others fixed), cutoff 0..9/13, the three kernels, seven frequencies in and out of the band, more and fewer places than frequencies; files: 0..6/10 moments of whole numbers -99..99
//@ assume: the recursion and the plain sum are decided as identities of polynomials modulo 2^32 (rounding is outside); the estimates of the extreme eigenvalues come from the Lanczos solver (P39) and are arbitrary here; the Jackson and Lorentz factors within 1e-9
#include "ring.h"
#include "Complex.h"
namespace PsimagLite {
template <>
class Real<Z> {
public:
	typedef R Type;
};
template <>
class IsComplexNumber<Z> {
public:
	enum { True = 1 };
};
template <>
struct IsNumber<R> {
	enum { True = 1 };
};
template <>
struct IsNumber<Z> {
	enum { True = 1 };
};
}
#include "PsimagLite.h"
#include "Matrix.h"
template <typename T>
void diag(PsimagLite::Matrix<T>& m, std::vector<R>& eigs, char option);
R norm(const std::vector<R>&);
R norm(const std::vector<Z>&);
#include "Io/IoSimple.h"
#include "ParametersForSolver.h"
#include "ChebyshevSolver.h"
using namespace PsimagLite;
typedef std::vector<R> VR;
typedef ParametersForSolver<R> Par;
typedef TridiagonalMatrix<R> Moments;

// random numbers (only the start of the search for the bounds): any
static unsigned g_random;
extern "C" double drand48() noexcept { return 0.125 + 0.25 * (g_random++ % 3); }
extern "C" void srand48(long) noexcept { }

// the two runs of the Lanczos solver (for -H, then for H) find these
static double g_extreme[2];
static int g_runs;
namespace PsimagLite {
template <>
void TridiagonalMatrix<R>::diag2(VectorRealType& eigs, SizeType) const { eigs.assign(a_.size(), R(0)); }
template <>
void TridiagonalMatrix<double>::diag2(VectorRealType& eigs, SizeType) const { eigs.assign(a_.size(), 0); }
void diag(Matrix<double>& m, std::vector<double>& eigs, char)
{
	// the small problem is that of the matrix below or of its negative
	psx_assert(m.rows() == 2, "levels of the small problem");
	double trace = m(0, 0) + m(1, 1), det = m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0);
	psx_assert(std::fabs(std::fabs(trace) - 3) < 1e-9 && std::fabs(det - 1.75) < 1e-9, "the bounds are those of the matrix");
	++g_runs;
	eigs.assign(m.rows(), g_extreme[trace > 0]);
	for (SizeType i = 0; i < m.rows(); ++i)
		for (SizeType j = 0; j < m.rows(); ++j)
			m(i, j) = i == j;
}
}
template <typename T>
void diag(PsimagLite::Matrix<T>& m, std::vector<R>& eigs, char)
{
	eigs.assign(m.rows(), R(g_runs++ & 1 ? -8 : -9));
	for (SizeType i = 0; i < m.rows(); ++i)
		for (SizeType j = 0; j < m.rows(); ++j)
			m(i, j) = T(i == j ? 1 : 0);
}
template <typename T>
static R dotRe(const std::vector<T>& a, const std::vector<T>& b) // real part of <b|a>
{
	R s = 0;
	for (SizeType i = 0; i < a.size(); ++i)
		s += PsimagLite::real(a[i] * PsimagLite::conj(b[i]));
	return s;
}
R norm(const std::vector<R>& x) { return sqrt(dotRe(x, x)); }
R norm(const std::vector<Z>& x) { return sqrt(dotRe(x, x)); }

template <typename T>
struct Mat {
	typedef T value_type;
	SizeType n;
	std::vector<T> d;
	Mat(SizeType k) : n(k), d(k * k, T(0)) { }
	SizeType rows() const { return n; }
	SizeType cols() const { return n; }
	T& operator()(SizeType i, SizeType j) { return d[i * n + j]; }
	const T& operator()(SizeType i, SizeType j) const { return d[i * n + j]; }
	void matrixVectorProduct(std::vector<T>& x, const std::vector<T>& y) const
	{
		for (SizeType i = 0; i < n; ++i)
			for (SizeType j = 0; j < n; ++j)
				x[i] += d[i * n + j] * y[j];
	}
};
static void entry(Mat<R>& m, SizeType i, SizeType j)
{
	put(m(i, j), "entry");
	m(j, i) = m(i, j);
}
static void entry(Mat<Z>& m, SizeType i, SizeType j)
{
	if (i == j)
		return put(m(i, i).re, "entry");
	put(m(i, j), "entry");
	m(j, i) = PsimagLite::conj(m(i, j));
}
static void fixed(Mat<R>& m, SizeType i, SizeType j) { m(i, j) = m(j, i) = R((int)((i * 5 + j * 5 + i * j * 3) % 7) - 3); }
static void fixed(Mat<Z>& m, SizeType i, SizeType j)
{
	m(i, j) = Z(R((int)((i * 5 + j * 5 + i * j * 3) % 7) - 3), R(i == j ? 0 : (int)(i + 2 * j) % 5 - 2));
	m(j, i) = PsimagLite::conj(m(i, j));
}
// mu_k = <phi|T_k(H')|phi> with H' = (H - b)/a, T_0 = 1, T_1 = x, T_{k+1} = 2 x T_k - T_{k-1}
template <typename T>
static void moments(SizeType n, SizeType steps, bool any)
{
	typedef ChebyshevSolver<Par, Mat<T>, std::vector<T>> Solver;
	Mat<T> h(n);
	for (SizeType i = 0; i < n; ++i)
		for (SizeType j = i; j < n; ++j)
			fixed(h, i, j);
	Par p;
	p.lotaMemory = true;
	g_runs = 0;
	Solver s(h, p);
	p.steps = steps;
	put(p.oneOverA, "scale");
	put(p.b, "shift");
	for (SizeType i = 0; i < n && any; ++i)
		for (SizeType j = i; j < n; ++j)
			entry(h, i, j);
	std::vector<T> phi(n);
	for (SizeType i = 0; i < n; ++i)
		put(phi[i], "vector");
	Moments ab;
	s.decomposition(phi, ab);
	psx_assert(ab.size() == 2 * steps, "two moments per step");
	psx_assert(s.steps() == steps, "number of steps");
	Matrix<T> saved;
	s.lanczosVectorsSwap(saved);
	psx_assert(saved.rows() == n && saved.cols() == steps, "one stored vector per step");
	std::vector<T> t0(n, T(0)), t1 = phi;
	for (SizeType k = 0; k < 2 * steps; ++k) {
		R mu = dotRe(t1, phi);
		if (k < steps)
			for (SizeType i = 0; i < n; ++i)
				psx_assert(sameR(saved(i, k), t1[i]), "the stored vectors are the Chebyshev polynomials of the matrix on the start");
		psx_assert(sameR(k & 1 ? ab.b(k / 2) : ab.a(k / 2), mu), "moment: expectation of a Chebyshev polynomial of the scaled matrix");
		std::vector<T> t2(n, T(0));
		h.matrixVectorProduct(t2, t1);
		for (SizeType i = 0; i < n; ++i) {
			t2[i] = (t2[i] - p.b * t1[i]) * p.oneOverA;
			if (k > 0)
				t2[i] = T(2) * t2[i] - t0[i];
		}
		t0 = t1;
		t1 = t2;
	}
}
PSX_CASE(moments_real)
{
	SizeType n = 1 + psx_choose("dimension", PSX_T(3, 4));
	moments<R>(n, 1 + psx_choose("steps", n == 1 ? 6 : n == 2 ? PSX_T(4, 5) : 3), true);
}
PSX_CASE(moments_complex)
{
	SizeType n = 1 + psx_choose("dimension", 2);
	moments<Z>(n, 1 + psx_choose("steps", PSX_T(2, 3)), true);
}
PSX_CASE(moments_large) { moments<R>(PSX_T(5, 7), PSX_T(4, 5), false); }
PSX_CASE(moments_large_complex) { moments<Z>(PSX_T(3, 4), PSX_T(3, 4), false); }

// the scaled matrix must not leave -1..1 at the eigenvalues found
PSX_CASE(scaling)
{
	typedef ParametersForSolver<double> P;
	Mat<double> h(2);
	h(0, 0) = 1;
	h(1, 1) = 2;
	h(0, 1) = h(1, 0) = 0.5;
	static const double LOWEST[] = { -50, -3, 0, 4, 61 };
	SizeType which = psx_choose("which", 6);
	double lo = which < 5 ? LOWEST[which] : psx_dbl("lowest", -99, 99), hi = lo + 2.0 * (1 + psx_choose("width", PSX_T(12, 50)));
	g_runs = 0;
	g_extreme[0] = -hi;
	g_extreme[1] = lo;
	P p;
	p.lotaMemory = true;
	ChebyshevSolver<P, Mat<double>, std::vector<double>> s(h, p);
	psx_assert(g_runs == 2, "lowest and highest eigenvalue are looked for");
	psx_assert(p.oneOverA > 0, "positive scale");
	double x = (lo - p.b) * p.oneOverA, y = (hi - p.b) * p.oneOverA;
	psx_assert(x >= -1, "the lowest eigenvalue is not below -1 once scaled");
	psx_assert(y <= 1, "the highest eigenvalue is not above 1 once scaled");
}

typedef ChebyshevSerializer<TridiagonalMatrix<double>> Plotter;
typedef Plotter::KernelParametersType Kernel;
typedef ParametersForSolver<double> ParD;
static double term(SizeType k, double x)
{
	double a = 1, b = x;
	for (SizeType i = 0; i < k; ++i) {
		double c = 2 * x * b - a;
		a = b;
		b = c;
	}
	return a;
}
static double factor(SizeType kind, SizeType k, SizeType n, double lambda)
{
	if (kind == Kernel::JACKSON) {
		double q = M_PI / (n + 1);
		return ((n + 1.0 - k) * cos(M_PI * k / (n + 1)) + sin(M_PI * k / (n + 1)) * (1 / tan(q))) / (n + 1.0);
	}
	if (kind == Kernel::LORENTZ)
		return sinh(lambda * (1.0 - double(k) / n)) / sinh(lambda);
	return 1;
}
static void plot(SizeType kind)
{
	SizeType half = 1 + psx_choose("pairs of moments", PSX_T(4, 6)), cutoff = psx_choose("cutoff", PSX_T(10, 14));
	TridiagonalMatrix<double> ab;
	SizeType total = 2 * half, which = psx_choose("which", total + 1);
	ab.resize(total, 0);
	std::vector<double> mu(total);
	for (SizeType k = 0; k < total; ++k) {
		mu[k] = k == which ? psx_dbl("moment", -15, 15) : double((k * 7 + 3) % 11) - 5;
		(k & 1 ? ab.b(k / 2) : ab.a(k / 2)) = mu[k];
	}
	ParD par;
	par.oneOverA = 0.25;
	par.b = 2;
	par.Eg = -1;
	Plotter plotter(ab, par);
	// x = (omega - 3)/4
	double from = -2, to = 8, step = 1.5;
	Plotter::PlotDataType r;
	SizeType given = psx_choose("room", 3);
	if (given)
		r.resize(given == 1 ? 3 : 9, std::pair<double, double>(-7, -8));
	PlotParams<double> pp(from, to, step, 0, 0, 0);
	double lambda = 2;
	plotter.plot(r, pp, Kernel(kind, cutoff, lambda));
	SizeType n = cutoff == 0 || cutoff > total ? total : cutoff;
	psx_assert(r.size() == (given == 0 ? 6 : given == 1 ? 3 : 9), "number of places");
	double omega = from - step;
	for (SizeType i = 0; i < r.size(); ++i) {
		omega += step;
		if (!(omega < to)) {
			psx_assert(r[i].first == -7 && r[i].second == -8, "places left over stay");
			continue;
		}
		psx_assert(r[i].first == omega, "frequency");
		double x = (omega - 3) / 4, f = 0, den = 1 - x * x;
		for (SizeType k = 0; k < n; ++k)
			f += mu[k] * factor(kind, k, n, lambda) * (k ? 1 : 0.5) * term(k, x);
		if (den <= 0)
			psx_assert(r[i].second == 0, "nothing outside the band");
		else {
			double e = 2 * f / sqrt(den);
			if (r[i].second == e)
				continue;
			double d = r[i].second - e;
			psx_assert(d < 1e-9 && d > -1e-9, "value: weighted sum of Chebyshev polynomials over the root");
		}
	}
}
PSX_CASE(plot_plain) { plot(Kernel::DIRICHLET); }
PSX_CASE(plot_jackson) { plot(Kernel::JACKSON); }
PSX_CASE(plot_lorentz) { plot(Kernel::LORENTZ); }
PSX_CASE(plot_short)
{
	// a range shorter than its step has no points
	TridiagonalMatrix<double> ab;
	ab.resize(6, 1);
	ParD par;
	par.oneOverA = 1;
	Plotter plotter(ab, par);
	Plotter::PlotDataType r;
	PlotParams<double> pp(0, 0.25, psx_choose("half", 2) ? 0.5 : 1, 0, 0, 0);
	plotter.plot(r, pp, Kernel(Kernel::DIRICHLET, 0, 0));
	psx_assert(r.size() == 0, "no points");
}
PSX_CASE(saved)
{
	SizeType half = psx_choose("pairs of moments", PSX_T(4, 6)), total = 2 * half;
	SizeType which = psx_choose("which", total + 3);
	TridiagonalMatrix<double> ab;
	if (total)
		ab.resize(total, 0);
	ParD par;
	double v[16 + 3];
	for (SizeType k = 0; k < total + 3; ++k)
		v[k] = k == which ? psx_dbl("value", -99, 99) : double((k * 7 + 3) % 11) - 5;
	par.Eg = v[0];
	par.oneOverA = v[1];
	par.b = v[2];
	for (SizeType k = 0; k < total; ++k)
		(k & 1 ? ab.b(k / 2) : ab.a(k / 2)) = v[3 + k];
	SizeType before = psx_choose("before", 2);
	{
		IoSimple::Out out("kpm.txt");
		if (before) {
			TridiagonalMatrix<double> other;
			other.resize(2, 7);
			Plotter(other, ParD()).write(out, "");
		}
		Plotter(ab, par).write(out, "");
	}
	IoSimple::In in("kpm.txt");
	in.advance(Plotter::stringMarker(), before);
	Plotter loaded(in);
	{
		IoSimple::Out out("again.txt");
		loaded.write(out, "");
	}
	{
		IoSimple::Out out("once.txt");
		Plotter(ab, par).write(out, "");
	}
	std::ifstream f("again.txt"), g("once.txt");
	String s, t;
	bool more;
	do {
		more = (bool)std::getline(f, s);
		psx_assert(more == (bool)std::getline(g, t), "same number of lines");
		psx_assert(!more || s == t, "what is loaded is what was saved");
	} while (more);
	IoSimple::In check("once.txt");
	double x;
	check.readline(x, "#ChebyshevEnergy=");
	psx_assert(x == v[0], "energy");
	check.readline(x, "#ChebyshevOneOverA=");
	psx_assert(x == v[1], "scale");
	check.readline(x, "#ChebyshevB=");
	psx_assert(x == v[2], "shift");
	std::vector<double> m;
	check.read(m, "#ChebyshevMoments");
	psx_assert(m.size() == total, "number of moments");
	for (SizeType k = 0; k < total; ++k)
		psx_assert(m[k] == v[3 + k], "moment");
}
