// P39: Lanczos and Runge-Kutta recursions follow their definition.
//@ src: PsimagLite.cpp ProgressIndicator.cpp Concurrency.cpp MpiNo.cpp
//@ bounds: Lanczos: every symmetric matrix of 1..3/4 and 5 rows and every hermitian one of 1..2/3, every initial vector, 1..4/5 steps asked for, least number of steps 0, 1 or 7, 0..2 estimates that matter, every course of the estimates (each 0..7, tolerance 0..8), states 0..2 (one state) and up to 0..3 (all states below); full orthogonalisation: 2..3/4 rows (real), 2/3 (complex); Runge-Kutta: every linear slope function of 1..2 components that also depends on time, 0..2/3 steps
//@ assume: reals are words modulo 2^32 with formal square roots and division, so recursions are decided as identities of polynomials (rounding is outside); the eigenvalue estimates of the tridiagonal matrices (whole numbers here) and the eigenvectors of the small problem are arbitrary (LAPACK is outside)
#include "ring.h"
#include "Complex.h"
namespace PsimagLite {
template <>
class Real<Z> {
public:
	typedef R Type;
};
template <>
class IsComplexNumber<Z> {
public:
	enum { True = 1 };
};
template <>
struct IsNumber<R> {
	enum { True = 1 };
};
template <>
struct IsNumber<Z> {
	enum { True = 1 };
};
}
#include "PsimagLite.h"
#include "Matrix.h"
// the dense eigensolver: some eigenvalues and eigenvectors
template <typename T>
void diag(PsimagLite::Matrix<T>& m, std::vector<R>& eigs, char option);
R norm(const std::vector<R>&);
R norm(const std::vector<Z>&);
#include "ParametersForSolver.h"
#include "LanczosSolver.h"
#include "RungeKutta.h"
using namespace PsimagLite;
typedef std::vector<R> VR;

// eigenvalues of the tridiagonal matrices so far: whatever a run may give; here numbers 0..7
struct Estimates {
	std::vector<VR> given;
	std::vector<SizeType> levels;
};
static Estimates g_est;
static SizeType g_watch; // number of eigenvalues that matter
namespace PsimagLite {
template <>
void TridiagonalMatrix<R>::diag2(VectorRealType& eigs, SizeType nn) const
{
	eigs.assign(a_.size(), R(0));
	for (SizeType i = 0; i < std::min(g_watch, eigs.size()); ++i)
		eigs[i] = R::of((unsigned)psx_range("estimate", 0, 7), true);
	g_est.given.push_back(eigs);
	g_est.levels.push_back(nn);
}
}
struct Dense {
	SizeType n = 0;
	VR a, b, eigs;
	std::vector<VR> vectors;
};
static Dense g_dense;
template <typename T>
void diag(PsimagLite::Matrix<T>& m, std::vector<R>& eigs, char option)
{
	psx_assert(m.rows() == m.cols() && option == 'V', "eigenvectors of a square matrix are asked for");
	SizeType n = m.rows();
	g_dense = Dense();
	g_dense.n = n;
	eigs.resize(n);
	for (SizeType i = 0; i < n; ++i)
		for (SizeType j = 0; j < n; ++j) {
			if (i == j)
				g_dense.a.push_back(PsimagLite::real(m(i, j)));
			else if (i + 1 == j)
				g_dense.b.push_back(PsimagLite::real(m(i, j)));
			psx_assert(i + 1 >= j && j + 1 >= i ? sameR(m(i, j), m(j, i)) : sameR(m(i, j), T(0)), "the small matrix is tridiagonal and symmetric");
		}
	for (SizeType i = 0; i < n; ++i) {
		put(eigs[i], "eigenvalue");
		g_dense.eigs.push_back(eigs[i]);
		g_dense.vectors.push_back(VR(n));
		for (SizeType j = 0; j < n; ++j)
			put(g_dense.vectors[i][j], "eigenvector");
	}
	for (SizeType i = 0; i < n; ++i)
		for (SizeType j = 0; j < n; ++j)
			m(j, i) = T(g_dense.vectors[i][j]);
}
template <typename T>
struct Mat {
	typedef T value_type;
	SizeType n;
	std::vector<T> d;
	SizeType rows() const { return n; }
	SizeType cols() const { return n; }
	const T& operator()(SizeType i, SizeType j) const { return d[i * n + j]; }
	void matrixVectorProduct(std::vector<T>& x, const std::vector<T>& y) const
	{
		for (SizeType i = 0; i < n; ++i)
			for (SizeType j = 0; j < n; ++j)
				x[i] += d[i * n + j] * y[j];
	}
};
static void fill(Mat<R>& m, SizeType n)
{
	m.n = n;
	m.d.resize(n * n);
	for (SizeType i = 0; i < n; ++i)
		for (SizeType j = i; j < n; ++j) {
			put(m.d[i * n + j], "entry");
			m.d[j * n + i] = m.d[i * n + j];
		}
}
static void fill(Mat<Z>& m, SizeType n)
{
	m.n = n;
	m.d.resize(n * n);
	for (SizeType i = 0; i < n; ++i) {
		put(m.d[i * n + i].re, "entry");
		for (SizeType j = i + 1; j < n; ++j) {
			put(m.d[i * n + j], "entry");
			m.d[j * n + i] = PsimagLite::conj(m.d[i * n + j]);
		}
	}
}
template <typename T>
static R dotRe(const std::vector<T>& a, const std::vector<T>& b) // real part of <b|a>
{
	R s = 0;
	for (SizeType i = 0; i < a.size(); ++i)
		s += PsimagLite::real(a[i] * PsimagLite::conj(b[i]));
	return s;
}
R norm(const std::vector<R>& x) { return sqrt(dotRe(x, x)); }
R norm(const std::vector<Z>& x) { return sqrt(dotRe(x, x)); }
typedef ParametersForSolver<R> Par;

// the stored vectors and the coefficients against the three-term recurrence
template <typename T>
static void recurrence(const Mat<T>& h, const std::vector<T>& init, const TridiagonalMatrix<R>& ab, const Matrix<T>& v)
{
	SizeType n = h.n, m = ab.size();
	psx_assert(v.rows() == n && v.cols() == m, "one stored vector per step");
	// roots: of the norm of the initial vector, then of the residuals in turn
	psx_assert(g_roots.of.size() >= m, "roots taken");
	psx_assert(sameR(g_roots.of[0], dotRe(init, init)), "norm of the initial vector");
	std::vector<std::vector<T>> w(m, std::vector<T>(n));
	for (SizeType k = 0; k < m; ++k)
		for (SizeType i = 0; i < n; ++i)
			w[k][i] = v(i, k);
	R inv = R(1) / Roots::value(0);
	for (SizeType i = 0; i < n; ++i)
		psx_assert(sameR(w[0][i], init[i] * inv), "the first vector is the initial one over its norm");
	psx_assert(sameR(ab.b(0), R(0)), "there is no coefficient before the first");
	for (SizeType k = 0; k < m; ++k) {
		std::vector<T> r(n, T(0));
		h.matrixVectorProduct(r, w[k]);
		psx_assert(sameR(ab.a(k), dotRe(r, w[k])), "diagonal coefficient: expectation of the matrix");
		for (SizeType i = 0; i < n; ++i)
			r[i] = k ? r[i] - ab.a(k) * w[k][i] - ab.b(k) * w[k - 1][i] : r[i] - ab.a(k) * w[k][i];
		if (k + 1 >= g_roots.of.size())
			continue;
		psx_assert(sameR(g_roots.of[k + 1], dotRe(r, r)), "the root is taken of the squared norm of the residual");
		if (k + 1 == m)
			continue;
		psx_assert(sameR(ab.b(k + 1), Roots::value(k + 1)), "off-diagonal coefficient: norm of the residual");
		R q = R(1) / Roots::value(k + 1);
		for (SizeType i = 0; i < n; ++i)
			psx_assert(sameR(w[k + 1][i], r[i] * q), "the next vector is the residual over its norm");
	}
}
// how many steps are right for the estimates given
static void stopped(SizeType m, SizeType n, const Par& p, SizeType watch)
{
	SizeType max = std::min(n, p.steps);
	psx_assert(m >= 1 && m <= max, "no more steps than asked for and than the dimension");
	if (m == max)
		return;
	bool settled = false;
	VR old(64, R(0));
	for (SizeType k = 0; k + 2 <= m; ++k) {
		psx_assert(g_est.levels[k] == k + 2, "the estimates are those of the levels so far");
		R delta = 0;
		for (SizeType i = 0; i < watch && i < g_est.given[k].size(); ++i) {
			R d = fabs(g_est.given[k][i] - old[i]);
			old[i] = g_est.given[k][i];
			if (d > delta)
				delta = d;
		}
		if (delta < p.tolerance)
			settled = true;
	}
	psx_assert(settled, "an early stop only if the estimates settled");
	psx_assert(n <= 4 || m > p.minSteps, "an early stop of a larger matrix only after the least number of steps");
}
template <typename T>
static void start(Mat<T>& h, std::vector<T>& init, Par& p, SizeType n)
{
	g_roots.of.clear();
	g_est = Estimates();
	fill(h, n);
	init.resize(n);
	for (SizeType i = 0; i < n; ++i)
		put(init[i], "vector");
	p.lotaMemory = true;
	p.steps = 1 + psx_choose("steps", PSX_T(4, 5));
	p.minSteps = psx_choose("least", 3);
	if (p.minSteps == 2)
		p.minSteps = 7;
	p.tolerance = R::of((unsigned)psx_range("tolerance", 0, 8), true);
}
// decomposition: as many eigenvalues are watched as the parameters say
template <typename T>
static void decomposition(SizeType n)
{
	Mat<T> h;
	std::vector<T> init;
	Par p;
	start(h, init, p, n);
	p.eigsForStop = g_watch = psx_choose("eigenvalues that matter", 3);
	LanczosSolver<Par, Mat<T>, std::vector<T>> s(h, p);
	TridiagonalMatrix<R> ab;
	s.decomposition(init, ab);
	psx_assert(s.steps() == ab.size(), "number of steps");
	stopped(ab.size(), n, p, g_watch);
	Matrix<T> v;
	s.lanczosVectorsSwap(v);
	recurrence(h, init, ab, v);
	psx_observe(ab.size());
}
PSX_CASE(lanczos_real) { decomposition<R>(1 + psx_choose("dimension", PSX_T(3, 4))); }
PSX_CASE(lanczos_large)
{
	// the least number of steps counts for matrices of more than four rows
	decomposition<R>(5);
}
PSX_CASE(lanczos_complex) { decomposition<Z>(1 + psx_choose("dimension", PSX_T(2, 3))); }
PSX_CASE(lanczos_wrong_size)
{
	Mat<R> h;
	fill(h, 1 + psx_choose("dimension", 3));
	VR init(psx_choose("size", 5), R(1));
	Par p;
	p.lotaMemory = true;
	LanczosSolver<Par, Mat<R>, VR> s(h, p);
	TridiagonalMatrix<R> ab;
	bool ok = false;
	g_watch = 0;
	try {
		s.decomposition(init, ab);
		ok = true;
	} catch (std::exception&) {
	}
	psx_assert(ok == (init.size() == h.n), "an initial vector of another size, and only that, is an error");
}
// states: linear combinations of the stored vectors, with the columns of the small eigenproblem
template <typename T>
static void combined(const std::vector<T>& z, const Matrix<T>& v, const VR& c)
{
	for (SizeType i = 0; i < z.size(); ++i) {
		T e = 0;
		for (SizeType k = 0; k < c.size(); ++k)
			e += T(c[k]) * v(i, k);
		psx_assert(sameR(z[i], e), "a state is the combination of the stored vectors that the small problem says");
	}
}
static void small(const TridiagonalMatrix<R>& ab)
{
	psx_assert(g_dense.n == ab.size(), "levels of the small problem");
	for (SizeType i = 0; i < ab.size(); ++i) {
		psx_assert(sameR(g_dense.a[i], ab.a(i)), "diagonal of the small problem");
		if (i > 0)
			psx_assert(sameR(g_dense.b[i - 1], ab.b(i)), "off-diagonal of the small problem");
	}
}
template <typename T>
static void state(SizeType n)
{
	Mat<T> h;
	std::vector<T> init, z(n, T(0));
	Par p;
	start(h, init, p, n);
	SizeType excited = psx_choose("excited", 3);
	g_watch = excited + 1;
	LanczosSolver<Par, Mat<T>, std::vector<T>> s(h, p);
	R e;
	bool ok = false;
	try {
		s.computeOneState(e, z, init, excited);
		ok = true;
	} catch (std::exception&) {
	}
	SizeType m = s.steps();
	psx_assert(ok == (excited < m), "states that do not exist, and only those, are errors");
	stopped(m, n, p, g_watch);
	if (!ok)
		return;
	Matrix<T> v;
	s.lanczosVectorsSwap(v);
	psx_assert(v.rows() == n && v.cols() == m && g_dense.n == m, "one stored vector per step");
	psx_assert(sameR(e, g_dense.eigs[excited]), "energy of the state asked for");
	combined(z, v, g_dense.vectors[excited]);
	for (SizeType k = 0; k < m; ++k) {
		std::vector<T> w(n), r(n, T(0));
		for (SizeType i = 0; i < n; ++i)
			w[i] = v(i, k);
		h.matrixVectorProduct(r, w);
		psx_assert(sameR(g_dense.a[k], dotRe(r, w)), "diagonal of the small problem");
		if (k > 0)
			psx_assert(sameR(g_dense.b[k - 1], Roots::value(k)), "off-diagonal of the small problem");
	}
}
PSX_CASE(state_real) { state<R>(1 + psx_choose("dimension", PSX_T(3, 4))); }
PSX_CASE(state_complex) { state<Z>(1 + psx_choose("dimension", 2)); }
PSX_CASE(states)
{
	SizeType n = 1 + psx_choose("dimension", PSX_T(3, 4));
	Mat<R> h;
	VR init, eigs;
	Par p;
	start(h, init, p, n);
	SizeType excited = psx_choose("excited", 4);
	g_watch = excited + 1;
	std::vector<VR> z(psx_choose("wanted", 4), VR(n, R(0)));
	LanczosSolver<Par, Mat<R>, VR> s(h, p);
	bool ok = false;
	try {
		s.computeAllStatesBelow(eigs, z, init, excited);
		ok = true;
	} catch (std::exception&) {
	}
	SizeType m = s.steps();
	psx_assert(ok == (excited <= m && std::min(z.size(), excited + 1) <= m), "states that do not exist, and only those, are errors");
	stopped(m, n, p, g_watch);
	if (!ok)
		return;
	Matrix<R> v;
	s.lanczosVectorsSwap(v);
	psx_assert(eigs.size() == m, "energies");
	for (SizeType k = 0; k < m; ++k)
		psx_assert(sameR(eigs[k], g_dense.eigs[k]), "energies");
	for (SizeType k = 0; k < z.size(); ++k)
		if (k <= excited)
			combined(z[k], v, g_dense.vectors[k]);
		else
			combined(z[k], v, VR());
}
// full orthogonalisation: each new vector loses its overlap with all earlier ones, and is normalised again
template <typename T>
static void reortho(SizeType n)
{
	Mat<T> h;
	std::vector<T> init;
	Par p;
	start(h, init, p, n);
	p.minSteps = 7;
	p.options = "reortho";
	p.tolerance = R(0); // no early stop
	p.eigsForStop = g_watch = 0;
	LanczosSolver<Par, Mat<T>, std::vector<T>> s(h, p);
	TridiagonalMatrix<R> ab;
	s.decomposition(init, ab);
	Matrix<T> v;
	s.lanczosVectorsSwap(v);
	SizeType m = ab.size(), root = 2;
	psx_assert(v.cols() == m, "one stored vector per step");
	std::vector<std::vector<T>> w(m, std::vector<T>(n));
	for (SizeType k = 0; k < m; ++k)
		for (SizeType i = 0; i < n; ++i)
			w[k][i] = v(i, k);
	// from the second vector on
	for (SizeType k = 1; k + 1 < m; ++k) {
		std::vector<T> r(n, T(0));
		h.matrixVectorProduct(r, w[k]);
		psx_assert(sameR(ab.a(k), dotRe(r, w[k])), "diagonal coefficient: expectation of the matrix");
		for (SizeType i = 0; i < n; ++i)
			r[i] = r[i] - ab.a(k) * w[k][i] - ab.b(k) * w[k - 1][i];
		psx_assert(sameR(g_roots.of[root], dotRe(r, r)), "the root is taken of the squared norm of the residual");
		psx_assert(sameR(ab.b(k + 1), Roots::value(root)), "off-diagonal coefficient: norm of the residual");
		R q = R(1) / Roots::value(root++);
		for (SizeType i = 0; i < n; ++i)
			r[i] *= q;
		for (SizeType j = 0; j <= k; ++j) {
			T o = 0;
			for (SizeType i = 0; i < n; ++i)
				o += PsimagLite::conj(w[j][i]) * r[i];
			for (SizeType i = 0; i < n; ++i)
				r[i] = r[i] - w[j][i] * o;
		}
		psx_assert(sameR(g_roots.of[root], dotRe(r, r)), "normalised again");
		q = R(1) / Roots::value(root++);
		for (SizeType i = 0; i < n; ++i)
			psx_assert(sameR(w[k + 1][i], r[i] * q), "the next vector is orthogonalised to all earlier ones");
	}
}
PSX_CASE(reortho_real) { reortho<R>(2 + psx_choose("dimension", PSX_T(2, 3))); }
PSX_CASE(reortho_complex) { reortho<Z>(2 + psx_choose("dimension", PSX_T(1, 2))); }
// ---- time steps
struct Slope {
	R a[2][2], c[2];
	mutable std::vector<R> times;
	VR operator()(R t, const VR& y) const
	{
		times.push_back(t);
		VR f(y.size());
		for (SizeType i = 0; i < y.size(); ++i) {
			f[i] = c[i] * t;
			for (SizeType j = 0; j < y.size(); ++j)
				f[i] += a[i][j] * y[j];
		}
		return f;
	}
};
PSX_CASE(runge_kutta)
{
	SizeType n = 1 + psx_choose("components", 2), N = psx_choose("steps", PSX_T(3, 4));
	Slope f;
	for (SizeType i = 0; i < 2; ++i) {
		put(f.c[i], "slope");
		for (SizeType j = 0; j < 2; ++j)
			put(f.a[i][j], "slope");
	}
	R h, t;
	put(h, "h");
	put(t, "t0");
	VR y(n);
	for (SizeType i = 0; i < n; ++i)
		put(y[i], "y0");
	RungeKutta<R, Slope, VR> rk(f, h);
	std::vector<VR> result;
	rk.solve(result, t, N, y);
	psx_assert(result.size() == N, "one result per step");
	R half = 0.5, sixth = 1.0 / 6.0;
	for (SizeType s = 0; s < N; ++s) {
		psx_assert(result[s].size() == n, "components");
		for (SizeType i = 0; i < n; ++i)
			psx_assert(sameR(result[s][i], y[i]), "the classic fourth-order step");
		VR k1 = f(t, y), k2, k3, k4, z(n);
		for (SizeType i = 0; i < n; ++i)
			z[i] = y[i] + h * k1[i] * half;
		k2 = f(t + h * half, z);
		for (SizeType i = 0; i < n; ++i)
			z[i] = y[i] + h * k2[i] * half;
		k3 = f(t + h * half, z);
		for (SizeType i = 0; i < n; ++i)
			z[i] = y[i] + h * k3[i];
		k4 = f(t + h, z);
		for (SizeType i = 0; i < n; ++i)
			y[i] += (h * k1[i] + 2 * (h * k2[i]) + 2 * (h * k3[i]) + h * k4[i]) * sixth;
		t += h;
	}
}
