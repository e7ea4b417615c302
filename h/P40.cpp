// P40: dense factorisations through LAPACK, and what is built on them.
//@ src: Matrix.cpp TridiagonalMatrix.cpp PsimagLite.cpp
//@ bounds: hermitian matrices of 1..4/6 rows, rectangular ones of up to 4x4/6x6, every integer entry of -4..3, all four kinds of numbers for eigenvalues, real and complex ones elsewhere; every result and failure LAPACK may give in either call of it, and workspaces of the least, a larger and a very large size; tridiagonal matrices of 2..5/7 rows and every leading part of two or more; linear prediction from 2 or 4/2, 4 or 6 points (or one more) with 1..half of them as coefficients and up to two points predicted at once or in two steps; exponentials of matrices of up to 2/3 rows with two sets of eigenvalues; besides, one larger size each: 33 rows for eigenvalues and inverses, 17 for singular values, 7 for general eigenvalues and exponentials, 41 for tridiagonal matrices, 10 points for linear prediction
//@ assume: LAPACK is a model that checks its documented demands on the arguments and gives an arbitrary result; exp, cos and sin are replaced by other known functions, so that results are exact
#include "psx.h"
#include "LAPACK.h"
#include "Matrix.h"
#include "Svd.h"
#include "TridiagonalMatrix.h"
#include "LinearPrediction.h"
#include "mat.h"
#include <complex>
#include <iostream>
typedef std::complex<float> Cf;
typedef std::vector<Cx> VC;

// ---- other functions in place of the transcendental ones: exact on the values used here
static bool whole(double x) { return x == (double)(int)x; }
static double formalCos(double x) { return whole(x) ? 2 + 7 * x : 3 * (double)(int)(x / M_PI + 0.5) - 1; }
static double formalSin(double x) { return whole(x) ? 5 - 3 * x : 4 + 2 * (double)(int)(x / M_PI + 0.5); }
extern "C" double exp(double x) noexcept { return 5 + 3 * x; }
extern "C" double cos(double x) noexcept { return formalCos(x); }
extern "C" double sin(double x) noexcept { return formalSin(x); }
extern "C" void sincos(double x, double* s, double* c) noexcept
{
	*s = formalSin(x);
	*c = formalCos(x);
}

static void val(double& x) { x = psx_dbl("v", -4, 3); }
static void val(float& x)
{
	x = (float)psx_dbl("v", -4, 3);
}
static void val(Cx& x)
{
	double re = psx_dbl("re", -4, 3), im = psx_dbl("im", -4, 3);
	x = Cx(re, im);
}
static void val(Cf& x)
{
	float re = (float)psx_dbl("re", -4, 3), im = (float)psx_dbl("im", -4, 3);
	x = Cf(re, im);
}
static float cj(float x) { return x; }
static Cf cj(const Cf& x) { return Cf(x.real(), -x.imag()); }
static bool same(float a, float b) { return a == b; }
static bool same(const Cf& a, const Cf& b) { return (a.real() == b.real()) & (a.imag() == b.imag()); }
static void obs(float a) { psx_observe_f(a); }
static void obs(const Cf& a)
{
	psx_observe_f(a.real());
	psx_observe_f(a.imag());
}
template <typename T>
struct RealOf {
	typedef T Type;
};
template <typename T>
struct RealOf<std::complex<T>> {
	typedef T Type;
};
static void onlyReal(double&) { }
static void onlyReal(float&) { }
static void onlyReal(Cx& x) { x = Cx(x.real(), 0); }
static void onlyReal(Cf& x) { x = Cf(x.real(), 0); }

// the sizes up to the given one, and a larger one
static Sz dim(const char* what, Sz top, Sz large)
{
	Sz n = 1 + psx_choose(what, top + 1);
	return n > top ? large : n;
}
// ---- the model of LAPACK: what it will answer, and what it has been given
template <typename T>
struct Model {
	typedef typename RealOf<T>::Type Re;
	int failQuery = 0, fail = 0; // info of the two calls
	int want = 0; // workspace
	int queries = 0, calls = 0;
	std::vector<T> given; // the matrix, column by column
	int rows = 0, cols = 0;
	std::vector<Re> w; // eigenvalues or singular values
	std::vector<T> u, vt; // vectors
	char job = 0, job2 = 0;
	static Model*& now()
	{
		static Model* m = nullptr;
		return m;
	}
	// the workspace question, or the check of the answer: true if it is the question
	bool question(T* work, int lwork, int least, int* info)
	{
		if (lwork == -1) {
			++queries;
			work[0] = T((Re)std::max(want, least));
			*info = failQuery;
			return true;
		}
		++calls;
		psx_assert(lwork >= std::max(1, least), "LAPACK: enough workspace");
		psx_assert(queries == 0 || lwork >= want, "LAPACK: the workspace asked for");
		work[0] = T(1);
		work[lwork - 1] = T(0);
		*info = fail;
		return false;
	}
	void take(const T* a, int r, int c, int lda)
	{
		rows = r;
		cols = c;
		given.clear();
		for (int j = 0; j < c; ++j)
			for (int i = 0; i < r; ++i)
				given.push_back(a[i + j * lda]);
	}
	static void give(T* a, int r, int c, int ld, const std::vector<T>& from)
	{
		psx_assert((int)from.size() == r * c, "the model has the result of this shape");
		for (int j = 0; j < c; ++j)
			for (int i = 0; i < r; ++i)
				a[i + j * ld] = from[i + j * r];
	}
	void eigen(char* jobz, char* uplo, int* n, T* a, int* lda, Re* eigs, T* work, int* lwork, Re* rwork, int* info)
	{
		job = *jobz;
		psx_assert(job == 'N' || job == 'V', "LAPACK: a job");
		psx_assert(*uplo == 'U' || *uplo == 'L', "LAPACK: a triangle");
		psx_assert(*n >= 0 && *lda >= std::max(1, *n), "LAPACK: sizes");
		int least = rwork ? 2 * *n - 1 : 3 * *n - 1;
		if (question(work, *lwork, least, info))
			return;
		if (rwork)
			for (int i = 0; i < 3 * *n - 2; ++i)
				rwork[i] = 0;
		// the matrix its triangle stands for
		take(a, *n, *n, *lda);
		for (int j = 0; j < *n; ++j) {
			for (int i = 0; i < *n; ++i)
				if (*uplo == 'U' ? i > j : i < j)
					given[i + j * *n] = cj(given[j + i * *n]);
			onlyReal(given[j + j * *n]);
		}
		if (fail)
			return;
		for (int i = 0; i < *n; ++i)
			eigs[i] = w[i];
		give(a, *n, *n, *lda, u);
	}
	void svd(char ju, char jv, int* m, int* n, T* a, int* lda, Re* s, T* uu, int* ldu, T* vv, int* ldvt, T* work, int* lwork, int least, int* info)
	{
		job = ju;
		job2 = jv;
		int mn = std::min(*m, *n);
		psx_assert((ju == 'A' || ju == 'S') && (jv == 'A' || jv == 'S'), "LAPACK: a job");
		psx_assert(*m >= 0 && *n >= 0 && *lda >= std::max(1, *m) && *ldu >= *m && *ldvt >= (jv == 'A' ? *n : mn), "LAPACK: sizes");
		if (question(work, *lwork, least, info))
			return;
		take(a, *m, *n, *lda);
		for (int j = 0; j < *n; ++j)
			for (int i = 0; i < *m; ++i)
				a[i + j * *lda] = T(77); // destroyed
		for (int i = 0; i < mn; ++i)
			s[i] = w[i];
		give(uu, *m, ju == 'A' ? *m : mn, *ldu, u);
		give(vv, jv == 'A' ? *n : mn, *n, *ldvt, vt);
	}
	// factors, then the inverse made from them
	bool factored = false;
	void getrf(int* m, int* n, T* a, int* lda, int* ipiv, int* info)
	{
		psx_assert(*m == *n && *n >= 0 && *lda >= std::max(1, *n), "LAPACK: sizes");
		take(a, *n, *n, *lda);
		for (int i = 0; i < *n; ++i)
			ipiv[i] = 100 + i;
		for (int j = 0; j < *n; ++j)
			for (int i = 0; i < *n; ++i)
				a[i + j * *lda] = given[i + j * *n] + T(Re(1 + i));
		factored = true;
		*info = fail;
	}
	void getri(int* n, T* a, int* lda, int* ipiv, T* work, int* lwork, int* info)
	{
		psx_assert(factored && *n == rows && *lda >= std::max(1, *n), "LAPACK: the factors first");
		if (question(work, *lwork, *n, info))
			return;
		bool ok = true;
		for (int i = 0; i < *n; ++i)
			ok &= ipiv[i] == 100 + i;
		for (int j = 0; j < *n; ++j)
			for (int i = 0; i < *n; ++i)
				ok &= same(a[i + j * *lda], given[i + j * *n] + T(Re(1 + i)));
		psx_assert(ok, "LAPACK: the factors and the pivots");
		if (!fail)
			give(a, *n, *n, *lda, u);
	}
};
extern "C" {
void dsyev_(char* j, char* u, int* n, double* a, int* lda, double* w, double* work, int* lw, int* info) { Model<double>::now()->eigen(j, u, n, a, lda, w, work, lw, nullptr, info); }
void ssyev_(char* j, char* u, int* n, float* a, int* lda, float* w, float* work, int* lw, int* info) { Model<float>::now()->eigen(j, u, n, a, lda, w, work, lw, nullptr, info); }
void zheev_(char* j, char* u, int* n, Cx* a, int* lda, double* w, Cx* work, int* lw, double* rw, int* info) { Model<Cx>::now()->eigen(j, u, n, a, lda, w, work, lw, rw, info); }
void cheev_(char* j, char* u, int* n, Cf* a, int* lda, float* w, Cf* work, int* lw, float* rw, int* info) { Model<Cf>::now()->eigen(j, u, n, a, lda, w, work, lw, rw, info); }
}
static int leastSdd(int m, int n, char job)
{
	int mn = std::min(m, n), mx = std::max(m, n);
	return job == 'A' ? 4 * mn * mn + 6 * mn + mx : 4 * mn * mn + 7 * mn;
}
static int leastZsdd(int m, int n, char job)
{
	int mn = std::min(m, n), mx = std::max(m, n);
	return job == 'A' ? mn * mn + 2 * mn + mx : mn * mn + 3 * mn;
}
static int leastSvd(int m, int n)
{
	int mn = std::min(m, n), mx = std::max(m, n);
	return std::max(3 * mn + mx, 5 * mn);
}
static void scratch(int* iwork, int n)
{
	for (int i = 0; i < n; ++i)
		iwork[i] = -1;
}
static void scratch(double* rwork, int n)
{
	for (int i = 0; i < n; ++i)
		rwork[i] = -1;
}
namespace psimag {
namespace LAPACK {
extern "C" {
int dgetrf_(int* m, int* n, double* a, int* lda, int* p, int* info)
{
	Model<double>::now()->getrf(m, n, a, lda, p, info);
	return 0;
}
int zgetrf_(int* m, int* n, Cx* a, int* lda, int* p, int* info)
{
	Model<Cx>::now()->getrf(m, n, a, lda, p, info);
	return 0;
}
int dgetri_(int* n, double* a, int* lda, int* p, double* w, int* lw, int* info)
{
	Model<double>::now()->getri(n, a, lda, p, w, lw, info);
	return 0;
}
int zgetri_(int* n, Cx* a, int* lda, int* p, Cx* w, int* lw, int* info)
{
	Model<Cx>::now()->getri(n, a, lda, p, w, lw, info);
	return 0;
}
int dgesdd_(char* j, int* m, int* n, double* a, int* lda, double* s, double* u, int* ldu, double* vt, int* ldvt, double* w, int* lw, int* iw, int* info)
{
	if (*lw != -1)
		scratch(iw, 8 * std::min(*m, *n));
	Model<double>::now()->svd(*j, *j, m, n, a, lda, s, u, ldu, vt, ldvt, w, lw, leastSdd(*m, *n, *j), info);
	return 0;
}
int zgesdd_(char* j, int* m, int* n, Cx* a, int* lda, double* s, Cx* u, int* ldu, Cx* vt, int* ldvt, Cx* w, int* lw, double* rw, int* iw, int* info)
{
	int mn = std::min(*m, *n), mx = std::max(*m, *n);
	if (*lw != -1) {
		scratch(iw, 8 * mn);
		scratch(rw, std::max(5 * mn * mn + 5 * mn, 2 * mx * mn + 2 * mn * mn + mn));
	}
	Model<Cx>::now()->svd(*j, *j, m, n, a, lda, s, u, ldu, vt, ldvt, w, lw, leastZsdd(*m, *n, *j), info);
	return 0;
}
int dgesvd_(char* j, char* j2, int* m, int* n, double* a, int* lda, double* s, double* u, int* ldu, double* vt, int* ldvt, double* w, int* lw, int* info)
{
	Model<double>::now()->svd(*j, *j2, m, n, a, lda, s, u, ldu, vt, ldvt, w, lw, leastSvd(*m, *n), info);
	return 0;
}
int zgesvd_(char* j, char* j2, int* m, int* n, Cx* a, int* lda, double* s, Cx* u, int* ldu, Cx* vt, int* ldvt, Cx* w, int* lw, double* rw, int* info)
{
	if (*lw != -1)
		scratch(rw, 5 * std::min(*m, *n));
	Model<Cx>::now()->svd(*j, *j2, m, n, a, lda, s, u, ldu, vt, ldvt, w, lw, leastSvd(*m, *n), info);
	return 0;
}
}
}
}

// ---- what goes wrong, and what is wanted of the workspace
template <typename T>
void course(Model<T>& m, bool both = true)
{
	static const int wants[] = {0, 60, 9000};
	m.want = wants[psx_choose("workspace", 3)];
	switch (psx_choose("failure", both ? 3 : 2)) {
	case 1:
		m.fail = (int)psx_range("info", 1, 3);
		break;
	case 2:
		m.failQuery = -(int)psx_range("info", 1, 3);
		break;
	}
}
template <typename T>
void hermitian(PsimagLite::Matrix<T>& a, Sz n)
{
	a.resize(n, n);
	for (Sz i = 0; i < n; ++i) {
		T x;
		val(x);
		onlyReal(x);
		a(i, i) = x;
		for (Sz j = i + 1; j < n; ++j) {
			T y;
			val(y);
			a(i, j) = y;
			a(j, i) = cj(y);
		}
	}
}
// ---- eigenvalues and vectors
template <typename T>
void eigenCase()
{
	typedef typename RealOf<T>::Type Re;
	Sz n = dim("n", PSX_T(4, 6), 33);
	PsimagLite::Matrix<T> a;
	hermitian(a, n);
	PsimagLite::Matrix<T> a0 = a;
	Model<T> m;
	Model<T>::now() = &m;
	course(m);
	m.w.resize(n);
	m.u.resize(n * n);
	for (Sz i = 0; i < n; ++i)
		val(m.w[i]);
	for (Sz i = 0; i < n * n; ++i)
		val(m.u[i]);
	char option = psx_choose("vectors", 2) ? 'V' : 'N';
	std::vector<Re> eigs(psx_choose("before", 2) * 5, Re(9));
	std::streambuf* old = std::cerr.rdbuf(nullptr);
	bool thrown = false;
	try {
		PsimagLite::diag(a, eigs, option);
	}
	catch (std::exception&) {
		thrown = true;
	}
	std::cerr.rdbuf(old);
	psx_assert(thrown == (m.fail != 0 || m.failQuery != 0), "a failure of LAPACK, and only that, is an error");
	psx_observe(thrown);
	if (m.failQuery != 0)
		return;
	psx_assert(m.calls == 1 && m.job == option, "one call, for what was asked");
	bool ok = m.rows == (int)n;
	for (Sz i = 0; i < n; ++i)
		for (Sz j = 0; j < n; ++j)
			ok &= same(m.given[i + j * n], a0(i, j));
	psx_assert(ok, "LAPACK gets the matrix");
	if (thrown)
		return;
	psx_assert(eigs.size() == n, "as many eigenvalues as rows");
	for (Sz i = 0; i < n; ++i)
		ok &= same(eigs[i], m.w[i]);
	psx_assert(ok, "the eigenvalues LAPACK found");
	psx_assert(a.rows() == n && a.cols() == n, "as many vectors as rows");
	if (option == 'V')
		for (Sz i = 0; i < n; ++i)
			for (Sz j = 0; j < n; ++j)
				ok &= same(a(i, j), m.u[i + j * n]);
	psx_assert(ok, "the vectors LAPACK found, in columns");
	obs(eigs[n - 1]);
	obs(a(0, n - 1));
}
PSX_CASE(eigen_double) { eigenCase<double>(); }
PSX_CASE(eigen_complex) { eigenCase<Cx>(); }
PSX_CASE(eigen_float) { eigenCase<float>(); }
PSX_CASE(eigen_complex_float) { eigenCase<Cf>(); }

// ---- general eigenvalues
static struct Geev {
	int want = 0, fail = 0, calls = 0;
	VC given, w, l, r;
	char jl = 0, jr = 0;
} g_geev;
extern "C" void zgeev_(char* jl, char* jr, int* n, Cx* a, int* lda, Cx* w, Cx* vl, int* ldvl, Cx* vr, int* ldvr, Cx* work, int* lwork, double* rwork, int* info)
{
	Geev& g = g_geev;
	psx_assert((*jl == 'N' || *jl == 'V') && (*jr == 'N' || *jr == 'V'), "LAPACK: a job");
	psx_assert(*n >= 0 && *lda >= std::max(1, *n), "LAPACK: sizes");
	psx_assert(*ldvl >= 1 && (*jl == 'N' || *ldvl >= *n) && *ldvr >= 1 && (*jr == 'N' || *ldvr >= *n), "LAPACK: room for the vectors");
	if (*lwork == -1) {
		work[0] = Cx(std::max(g.want, 2 * *n), 0);
		*info = 0;
		return;
	}
	++g.calls;
	psx_assert(*lwork >= std::max(std::max(1, 2 * *n), g.want), "LAPACK: enough workspace");
	work[*lwork - 1] = 0;
	for (int i = 0; i < 2 * *n; ++i)
		rwork[i] = 0;
	g.jl = *jl;
	g.jr = *jr;
	for (int j = 0; j < *n; ++j)
		for (int i = 0; i < *n; ++i) {
			g.given.push_back(a[i + j * *lda]);
			a[i + j * *lda] = 77;
		}
	for (int i = 0; i < *n; ++i)
		w[i] = g.w[i];
	for (int j = 0; j < *n; ++j)
		for (int i = 0; i < *n; ++i) {
			if (*jl == 'V')
				vl[i + j * *ldvl] = g.l[i + j * *n];
			if (*jr == 'V')
				vr[i + j * *ldvr] = g.r[i + j * *n];
		}
	*info = g.fail;
}
PSX_CASE(general_eigen)
{
	Sz n = dim("n", PSX_T(2, 3), 7);
	g_geev = Geev();
	static const int wants[] = {0, 60, 9000};
	g_geev.want = wants[psx_choose("workspace", 3)];
	if (psx_choose("failure", 2))
		g_geev.fail = (int)psx_range("info", 1, 3);
	char jl = psx_choose("left", 2) ? 'V' : 'N';
	char jr = psx_choose("right", 2) ? 'V' : 'N';
	PsimagLite::Matrix<Cx> a(n, n), vl(jl == 'V' ? n : 1, jl == 'V' ? n : 1), vr(jr == 'V' ? n : 1, jr == 'V' ? n : 1);
	VC w(n);
	g_geev.w.resize(n);
	g_geev.l.resize(n * n);
	g_geev.r.resize(n * n);
	for (Sz i = 0; i < n; ++i) {
		val(g_geev.w[i]);
		for (Sz j = 0; j < n; ++j) {
			Cx x;
			val(x);
			a(i, j) = x;
			val(g_geev.l[i + j * n]);
			val(g_geev.r[i + j * n]);
		}
	}
	PsimagLite::Matrix<Cx> a0 = a;
	bool thrown = false;
	try {
		PsimagLite::geev(jl, jr, a, w, vl, vr);
	}
	catch (std::exception&) {
		thrown = true;
	}
	psx_assert(thrown == (g_geev.fail != 0), "a failure of LAPACK, and only that, is an error");
	psx_assert(g_geev.calls == 1 && g_geev.jl == jl && g_geev.jr == jr, "one call, for what was asked");
	bool ok = true;
	for (Sz i = 0; i < n; ++i)
		for (Sz j = 0; j < n; ++j)
			ok &= same(g_geev.given[i + j * n], a0(i, j));
	psx_assert(ok, "LAPACK gets the matrix");
	if (!thrown)
		for (Sz i = 0; i < n; ++i) {
			ok &= same(w[i], g_geev.w[i]);
			for (Sz j = 0; j < n; ++j) {
				if (jl == 'V')
					ok &= same(vl(i, j), g_geev.l[i + j * n]);
				if (jr == 'V')
					ok &= same(vr(i, j), g_geev.r[i + j * n]);
			}
		}
	psx_assert(ok, "eigenvalues, left and right vectors as LAPACK found them");
	psx_observe(thrown);
	obs(w[0]);
}

// ---- singular values
template <typename T>
void svdCase(const char* name)
{
	typedef typename RealOf<T>::Type Re;
	Sz r = dim("rows", PSX_T(4, 6), 17);
	Sz c = dim("cols", PSX_T(4, 6), 17);
	Sz mn = std::min(r, c);
	char job = psx_choose("job", 2) ? 'A' : 'S';
	Sz uc = job == 'A' ? r : mn, vr = job == 'A' ? c : mn;
	PsimagLite::Matrix<T> a(r, c);
	for (Sz i = 0; i < r; ++i)
		for (Sz j = 0; j < c; ++j) {
			T x;
			val(x);
			a(i, j) = x;
		}
	PsimagLite::Matrix<T> a0 = a, vt;
	Model<T> m;
	Model<T>::now() = &m;
	static const int wants[] = {0, 60, 9000};
	m.want = wants[psx_choose("workspace", 3)];
	switch (psx_choose("failure", 3)) {
	case 1:
		m.fail = -(int)psx_range("info", 1, 3);
		break;
	case 2:
		m.failQuery = -(int)psx_range("info", 1, 3);
		break;
	}
	m.w.resize(mn);
	m.u.resize(r * uc);
	m.vt.resize(vr * c);
	for (Sz i = 0; i < mn; ++i)
		val(m.w[i]);
	for (Sz i = 0; i < m.u.size(); ++i)
		val(m.u[i]);
	for (Sz i = 0; i < m.vt.size(); ++i)
		val(m.vt[i]);
	std::vector<Re> s(psx_choose("before", 2) * 5, Re(9));
	bool thrown = false;
	PsimagLite::Svd<T> svd(name);
	psx_assert(svd.name() == name && svd.canTryAgain() == (svd.name() == "gesdd"), "the method named; the slower one is left to try");
	try {
		svd(job, a, s, vt);
	}
	catch (std::exception&) {
		thrown = true;
	}
	psx_assert(thrown == (m.fail != 0 || m.failQuery != 0), "a failure of LAPACK, and only that, is an error");
	psx_observe(thrown);
	if (thrown)
		return;
	psx_assert(m.calls == 1 && m.job == job && m.job2 == job, "one call, for what was asked");
	bool ok = m.rows == (int)r && m.cols == (int)c;
	for (Sz i = 0; i < r; ++i)
		for (Sz j = 0; j < c; ++j)
			ok &= same(m.given[i + j * r], a0(i, j));
	psx_assert(ok, "LAPACK gets the matrix");
	psx_assert(s.size() == mn && a.rows() == r && a.cols() == uc && vt.rows() == vr && vt.cols() == c, "the shapes of the factors");
	for (Sz i = 0; i < mn; ++i)
		ok &= same(s[i], m.w[i]);
	for (Sz i = 0; i < r; ++i)
		for (Sz j = 0; j < uc; ++j)
			ok &= same(a(i, j), m.u[i + j * r]);
	for (Sz i = 0; i < vr; ++i)
		for (Sz j = 0; j < c; ++j)
			ok &= same(vt(i, j), m.vt[i + j * vr]);
	psx_assert(ok, "singular values and both factors as LAPACK found them");
	obs(s[mn - 1]);
	obs(a(r - 1, uc - 1));
	obs(vt(vr - 1, c - 1));
}
PSX_CASE(svd_double) { svdCase<double>("gesdd"); }
PSX_CASE(svd_complex) { svdCase<Cx>("gesdd"); }
PSX_CASE(svd_slow_double) { svdCase<double>("gesvd"); }
PSX_CASE(svd_slow_complex) { svdCase<Cx>("gesvd"); }
PSX_CASE(svd_refused)
{
	PsimagLite::Matrix<double> a(2, 2, 1.0), vt;
	std::vector<double> s;
	char job = (char)psx_u8("job");
	bool badName = psx_choose("name", 2);
	psx_assume(badName || (job != 'A' && job != 'S'));
	Model<double> m;
	Model<double>::now() = &m;
	bool thrown = false;
	try {
		PsimagLite::Svd<double> svd(badName ? "gesxx" : "gesdd");
		svd(job, a, s, vt);
	}
	catch (std::exception&) {
		thrown = true;
	}
	psx_assert(thrown && m.calls == 0, "other jobs and methods are errors");
	psx_observe(thrown);
}

// ---- the inverse
template <typename T>
void inverseCase()
{
	Sz n = dim("n", PSX_T(4, 6), 33);
	PsimagLite::Matrix<T> a(n, n);
	for (Sz i = 0; i < n; ++i)
		for (Sz j = 0; j < n; ++j) {
			T x;
			val(x);
			a(i, j) = x;
		}
	PsimagLite::Matrix<T> a0 = a;
	Model<T> m;
	Model<T>::now() = &m;
	course(m, false);
	m.u.resize(n * n);
	for (Sz i = 0; i < n * n; ++i)
		val(m.u[i]);
	bool thrown = false;
	try {
		PsimagLite::inverse(a);
	}
	catch (std::exception&) {
		thrown = true;
	}
	psx_assert(thrown == (m.fail != 0), "a singular matrix, and only that, is an error");
	bool ok = m.calls <= 1;
	for (Sz i = 0; i < n; ++i)
		for (Sz j = 0; j < n; ++j)
			ok &= same(m.given[i + j * n], a0(i, j));
	psx_assert(ok, "LAPACK gets the matrix");
	psx_observe(thrown);
	if (thrown)
		return;
	psx_assert(a.rows() == n && a.cols() == n, "the shape stays");
	for (Sz i = 0; i < n; ++i)
		for (Sz j = 0; j < n; ++j)
			ok &= same(a(i, j), m.u[i + j * n]);
	psx_assert(ok, "the inverse LAPACK found");
	obs(a(0, n - 1));
}
PSX_CASE(inverse_double) { inverseCase<double>(); }
PSX_CASE(inverse_complex) { inverseCase<Cx>(); }

// ---- functions of hermitian matrices: vectors times function of eigenvalues times vectors conjugated
template <typename T, typename F, typename G>
void functionCase(const F& f, const G& call)
{
	Sz n = dim("n", PSX_T(2, 3), 7);
	PsimagLite::Matrix<T> a;
	hermitian(a, n);
	PsimagLite::Matrix<T> a0 = a;
	Model<T> m;
	Model<T>::now() = &m;
	m.w.resize(n);
	m.u.resize(n * n);
	Sz which = psx_choose("eigenvalues", 2);
	for (Sz i = 0; i < n; ++i)
		m.w[i] = which ? 3 - (double)i : 1 + (double)(2 * i);
	for (Sz i = 0; i < n * n; ++i)
		val(m.u[i]);
	call(a);
	bool ok = m.calls == 1 && m.job == 'V';
	psx_assert(ok, "the eigenvectors are computed once");
	for (Sz i = 0; i < n; ++i)
		for (Sz j = 0; j < n; ++j)
			ok &= same(m.given[i + j * n], a0(i, j));
	psx_assert(ok, "LAPACK gets the matrix");
	psx_assert(a.rows() == n && a.cols() == n, "the shape stays");
	for (Sz i = 0; i < n; ++i)
		for (Sz j = 0; j < n; ++j) {
			T sum = 0;
			for (Sz k = 0; k < n; ++k)
				sum += m.u[i + k * n] * f(m.w[k]) * cj(m.u[j + k * n]);
			ok &= same(a(i, j), sum);
		}
	psx_assert(ok, "the function of the matrix from its eigenvectors");
	obs(a(0, n - 1));
	obs(a(n - 1, 0));
}
PSX_CASE(exp_real)
{
	functionCase<double>([](double e) { return ::exp(e); }, [](PsimagLite::Matrix<double>& a) { PsimagLite::exp(a); });
}
PSX_CASE(exp_complex)
{
	functionCase<Cx>([](double e) { return Cx(formalCos(e), formalSin(e)); }, [](PsimagLite::Matrix<Cx>& a) { PsimagLite::exp(a); });
}
PSX_CASE(exp_ipi)
{
	functionCase<Cx>([](double e) { return Cx(formalCos(e * M_PI), formalSin(e * M_PI)); }, [](PsimagLite::Matrix<Cx>& a) { PsimagLite::expIpi(a); });
}
PSX_CASE(exp_ipi_refused)
{
	bool thrown = false;
	Sz which = psx_choose("which", 3);
	Model<Cx> m;
	Model<Cx>::now() = &m;
	try {
		if (which == 2) {
			PsimagLite::Matrix<double> a(2, 2);
			PsimagLite::expIpi(a);
		}
		else {
			PsimagLite::Matrix<Cx> a(1 + which, 2 - which);
			PsimagLite::expIpi(a);
		}
	}
	catch (std::exception&) {
		thrown = true;
	}
	psx_assert(thrown, "only square complex matrices");
	psx_observe(thrown);
}


// ---- eigenvalues of a tridiagonal matrix
template <typename T>
struct Stedc {
	int fail = 0, calls = 0;
	std::vector<T> d, e, w;
	static Stedc*& now()
	{
		static Stedc* m = nullptr;
		return m;
	}
	void operator()(char* job, int* n, T* dd, T* ee, T*, int* ldz, T* work, int* lwork, int* iwork, int* liwork, int* info)
	{
		++calls;
		psx_assert(*job == 'N' && *n >= 0 && *ldz >= 1, "LAPACK: eigenvalues only");
		psx_assert(*lwork >= 1 && *liwork >= 1, "LAPACK: enough workspace");
		work[0] = 1;
		iwork[0] = 1;
		for (int i = 0; i < *n; ++i) {
			d.push_back(dd[i]);
			dd[i] = w[i];
			if (i + 1 < *n) {
				e.push_back(ee[i]);
				ee[i] = 0;
			}
		}
		*info = fail;
	}
};
extern "C" {
void dstedc_(char* j, int* n, double* d, double* e, double* z, int* lz, double* w, int* lw, int* iw, int* liw, int* info) { (*Stedc<double>::now())(j, n, d, e, z, lz, w, lw, iw, liw, info); }
void sstedc_(char* j, int* n, float* d, float* e, float* z, int* lz, float* w, int* lw, int* iw, int* liw, int* info) { (*Stedc<float>::now())(j, n, d, e, z, lz, w, lw, iw, liw, info); }
}
template <typename T>
void tridiagonalCase()
{
	Sz n = 1 + dim("n", PSX_T(4, 6), 40);
	Sz nn = 2 + psx_choose("asked", n - 1);
	Stedc<T> m;
	Stedc<T>::now() = &m;
	if (psx_choose("failure", 2))
		m.fail = psx_int("info", -3, 3);
	PsimagLite::TridiagonalMatrix<T> t;
	t.resize(n);
	m.w.resize(nn);
	for (Sz i = 0; i < n; ++i) {
		T a, b;
		val(a);
		val(b);
		t.a(i) = a;
		t.b(i) = b;
		if (i < nn)
			val(m.w[i]);
	}
	const PsimagLite::TridiagonalMatrix<T> t0(const_cast<const PsimagLite::TridiagonalMatrix<T>&>(t));
	std::vector<T> eigs(psx_choose("before", 2) * 5, T(9));
	std::streambuf* old = std::cerr.rdbuf(nullptr);
	bool thrown = false;
	try {
		t.diag(eigs, nn);
	}
	catch (std::exception&) {
		thrown = true;
	}
	std::cerr.rdbuf(old);
	psx_assert(thrown == (m.fail != 0), "a failure of LAPACK, and only that, is an error");
	bool ok = m.calls == 1 && m.d.size() == nn;
	for (Sz i = 0; i < nn; ++i) {
		ok &= same(m.d[i], t0.a(i));
		if (i + 1 < nn)
			ok &= same(m.e[i], t0.b(i + 1));
	}
	psx_assert(ok, "LAPACK gets the leading part of the matrix");
	for (Sz i = 0; i < n; ++i)
		ok &= same(t.a(i), t0.a(i)) & same(t.b(i), t0.b(i));
	psx_assert(ok, "the matrix stays as it is");
	psx_observe(thrown);
	if (thrown)
		return;
	psx_assert(eigs.size() >= nn, "as many eigenvalues as asked for");
	for (Sz i = 0; i < nn; ++i)
		ok &= same(eigs[i], m.w[i]);
	psx_assert(ok, "the eigenvalues LAPACK found");
	obs(eigs[nn - 1]);
}
PSX_CASE(tridiagonal_double) { tridiagonalCase<double>(); }
PSX_CASE(tridiagonal_float) { tridiagonalCase<float>(); }

// ---- linear prediction: the normal equations of the second half of the data, and the recurrence
extern "C" void dgemv_(char* t, int* m, int* n, const double* alpha, const double* a, int* lda, const double* x, int* ix, const double* beta, double* y, int* iy)
{
	psx_assert(*t == 'N' && *m >= 0 && *n >= 0 && *lda >= std::max(1, *m) && *ix == 1 && *iy == 1, "BLAS: sizes");
	for (int i = 0; i < *m; ++i) {
		double sum = 0;
		for (int j = 0; j < *n; ++j)
			sum += a[i + j * *lda] * x[j];
		y[i] = *beta == 0 ? *alpha * sum : *alpha * sum + *beta * y[i];
	}
}
PSX_CASE(linear_prediction)
{
	Sz half = dim("half", PSX_T(2, 3), 5);
	Sz p = 1 + psx_choose("order", half);
	Sz extra = psx_choose("extra", 3);
	bool odd = psx_choose("odd", 2);
	std::vector<double> y(2 * half + odd);
	for (Sz i = 0; i < y.size(); ++i)
		y[i] = psx_dbl("y", -2, 2);
	Model<double> m;
	Model<double>::now() = &m;
	course(m, false);
	m.u.resize(p * p);
	for (Sz i = 0; i < p * p; ++i)
		m.u[i] = psx_dbl("x", -2, 2);
	bool thrown = false;
	std::vector<double> out;
	try {
		PsimagLite::LinearPrediction<double> lp(y, p);
		Sz done = 0;
		if (psx_choose("steps", 2) && extra > 0) {
			lp.predict(1);
			done = 1;
		}
		lp.predict(extra - done);
		for (Sz i = 0; i < y.size() + extra; ++i)
			out.push_back(lp(i));
	}
	catch (std::exception&) {
		thrown = true;
	}
	psx_assert(thrown == (odd || m.fail != 0), "an odd number of points, or equations without a solution, are errors");
	psx_observe(thrown);
	if (odd)
		return;
	bool ok = m.rows == (int)p;
	for (Sz l = 0; l < p; ++l)
		for (Sz j = 0; j < p; ++j) {
			double sum = 0;
			for (Sz i = half; i < 2 * half; ++i)
				sum += y[i - l - 1] * y[i - j - 1];
			ok &= same(m.given[l + j * p], sum);
		}
	psx_assert(ok, "the normal equations");
	if (thrown)
		return;
	std::vector<double> d(p, 0.0);
	for (Sz l = 0; l < p; ++l)
		for (Sz j = 0; j < p; ++j) {
			double sum = 0;
			for (Sz i = half; i < 2 * half; ++i)
				sum += y[i - j - 1] * y[i];
			d[l] += m.u[l + j * p] * sum;
		}
	for (Sz e = 0; e < extra; ++e) {
		double sum = 0;
		for (Sz j = 0; j < p; ++j)
			sum += d[j] * y[y.size() - j - 1];
		y.push_back(sum);
	}
	psx_assert(out.size() == y.size(), "as many points as asked for");
	for (Sz i = 0; i < y.size(); ++i)
		ok &= same(out[i], y[i]);
	psx_assert(ok, "the points and their continuation by the solution");
	obs(out[out.size() - 1]);
}
