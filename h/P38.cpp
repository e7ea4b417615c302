// P38: message passing.
//@ flags: -DUSE_MPI -I@/mpi
//@ src: Mpi.cpp Concurrency.cpp
//@ bounds: 1..3/4 ranks, every root, the communicator of all ranks and one with the ranks in reverse; single values, pairs and vectors, vectors of vectors, vectors of pairs, dense and sparse matrices and vectors of matrices of up to 3/4 elements, every number, of another length on every rank that receives; sums, products, greatest and smallest of every kind of number, for unsigned ones over all their values; gathers of up to 5/7 tasks; loops of up to 7/9 tasks over the ranks, followed by the sum over the ranks; sends that return at once and sends that wait for the receiver; a failure of every call; files written in each way, closed and opened again; lists of up to 3 settings of the library; vectors of 17 and 70 values, 9x7 matrices, 40 gathered values and loops of 50 to 53 tasks
//@ case large max_instr=60000000
//@ case large_loop max_instr=60000000
//@ assume: the message-passing library is a model (h/mpi/mpi.h) that checks the rules of the standard: it stands for all schedules because no call receives from any rank; floating-point data are integers, so that sums do not depend on their order
#include "mpi.h"
#include "Concurrency.h"
#include "CrsMatrix.h"
#include "InterNode.h"
#include "Matrix.h"
#include "mat.h"
#include <iostream>
#include <sstream>
sim::World* sim::w = nullptr;
extern "C" int feenableexcept(int) noexcept { return 0; }
extern "C" void ilaver_(int* a, int* b, int* c)
{
	*a = 3;
	*b = 12;
	*c = 0;
}
namespace MPI = PsimagLite::MPI;
typedef std::vector<double> VecD;

static Sz g_many = 0; // length of the vectors, when fixed
static int ranks() { return 1 + (int)psx_choose("ranks", PSX_T(3, 4)); }
static MPI_Comm comms() { return psx_choose("comm", 2) ? SIM_COMM_REVERSED : MPI_COMM_WORLD; }
// rank in the communicator -> rank of the world
static int world(MPI_Comm c, int n, int r) { return c == MPI_COMM_WORLD ? r : n - 1 - r; }

// ---- values of every kind
static void sym(int& x) { x = (int)psx_u32("int"); }
static void sym(unsigned& x) { x = psx_u32("unsigned"); }
static void sym(Sz& x) { x = psx_u64("size"); }
static void sym(double& x) { x = psx_dbl("dbl", -8, 7); }
static void sym(Cx& x) { symValue(x, -8, 7); }
template <typename A, typename B>
void sym(std::pair<A, B>& p)
{
	sym(p.first);
	sym(p.second);
}
static void sym(PsimagLite::Matrix<double>&);
static void sym(PsimagLite::Matrix<Cx>&);
template <typename T>
void sym(std::vector<T>& v)
{
	v.resize(g_many ? g_many : 1 + psx_choose("length", PSX_T(2, 3)));
	for (Sz i = 0; i < v.size(); ++i)
		sym(v[i]);
}
template <typename T>
void symMatrix(PsimagLite::Matrix<T>& m)
{
	Sz r = g_many ? 9 : 1 + psx_choose("rows", 2);
	Sz c = g_many ? 7 : 1 + psx_choose("cols", 2);
	m.resize(r, c);
	for (Sz i = 0; i < r; ++i)
		for (Sz j = 0; j < c; ++j)
			sym(m(i, j));
}
static void sym(PsimagLite::Matrix<double>& m) { symMatrix(m); }
static void sym(PsimagLite::Matrix<Cx>& m) { symMatrix(m); }
template <typename T>
void sym(PsimagLite::CrsMatrix<T>& m)
{
	PsimagLite::Matrix<T> d;
	Sz pattern = psx_choose("pattern", 3);
	d.resize(1 + (pattern > 0), 2, T(0));
	T x, y;
	sym(x);
	sym(y);
	psx_assume(!same(x, T(0)));
	psx_assume(!same(y, T(0)));
	d(0, 1) = x;
	if (pattern > 0)
		d(1, pattern - 1) = y;
	PsimagLite::fullMatrixToCrsMatrix(m, d);
}
static bool eq(int a, int b) { return a == b; }
static bool eq(unsigned a, unsigned b) { return a == b; }
static bool eq(Sz a, Sz b) { return a == b; }
static bool eq(double a, double b) { return a == b; }
static bool eq(const Cx& a, const Cx& b) { return same(a, b); }
template <typename A, typename B>
bool eq(const std::pair<A, B>& a, const std::pair<A, B>& b)
{
	return eq(a.first, b.first) & eq(a.second, b.second);
}
template <typename T>
bool eq(const PsimagLite::Matrix<T>& a, const PsimagLite::Matrix<T>& b)
{
	if (a.rows() != b.rows() || a.cols() != b.cols())
		return false;
	bool ok = true;
	for (Sz i = 0; i < a.rows(); ++i)
		for (Sz j = 0; j < a.cols(); ++j)
			ok &= eq(a(i, j), b(i, j));
	return ok;
}
template <typename T>
bool eq(const PsimagLite::CrsMatrix<T>& a, const PsimagLite::CrsMatrix<T>& b)
{
	if (a.rows() != b.rows() || a.cols() != b.cols() || a.nonZeros() != b.nonZeros())
		return false;
	bool ok = true;
	for (Sz i = 0; i < a.rows() + 1; ++i)
		ok &= a.getRowPtr(i) == b.getRowPtr(i);
	for (Sz k = 0; k < (Sz)a.nonZeros(); ++k)
		ok &= (a.getCol(k) == b.getCol(k)) & eq(a.getValue(k), b.getValue(k));
	return ok;
}
template <typename T>
bool eq(const std::vector<T>& a, const std::vector<T>& b)
{
	if (a.size() != b.size())
		return false;
	bool ok = true;
	for (Sz i = 0; i < a.size(); ++i)
		ok &= eq(a[i], b[i]);
	return ok;
}
// something to observe, for the comparison with native runs
static void ob(int a) { psx_observe((Sz)(long)a); }
static void ob(unsigned a) { psx_observe(a); }
static void ob(Sz a) { psx_observe(a); }
static void ob(double a) { psx_observe_f(a); }
static void ob(const Cx& a) { obs(a); }
template <typename A, typename B>
void ob(const std::pair<A, B>& p)
{
	ob(p.first);
	ob(p.second);
}
template <typename T>
void ob(const PsimagLite::Matrix<T>& m)
{
	for (Sz i = 0; i < m.rows(); ++i)
		for (Sz j = 0; j < m.cols(); ++j)
			ob(m(i, j));
}
template <typename T>
void ob(const PsimagLite::CrsMatrix<T>& m)
{
	for (Sz k = 0; k < (Sz)m.nonZeros(); ++k)
		ob(m.getValue(k));
}
template <typename T>
void ob(const std::vector<T>& v)
{
	ob(Sz(v.size()));
	for (Sz i = 0; i < v.size(); ++i)
		ob(v[i]);
}

// ---- broadcasts: afterwards every rank has what the root had, whatever it had itself
template <typename T>
void other(T& x, int)
{
	x = T(); // another value (of the shape of nothing)
}
static void other(int& x, int r) { x = -1 - r; }
static void other(unsigned& x, int r) { x = 77 + r; }
static void other(Sz& x, int r) { x = ~Sz(0) - r; }
static void other(double& x, int r) { x = 0.5 + r; }
template <typename T>
void other(std::vector<T>& v, int r)
{
	v.clear();
	v.resize(r == 0 ? 0 : 2 * r);
}
template <typename T>
void other(PsimagLite::Matrix<T>& m, int r)
{
	m.clear();
	if (r > 0)
		m.resize(r, 3, T(9));
}
struct Bcast {
	template <typename T>
	void operator()(T& x, int root, MPI_Comm c) const { MPI::bcast(x, root, c); }
};
struct MemberBcast {
	template <typename T>
	void operator()(T& x, int root, MPI_Comm c) const { x.bcast(root, c); }
};
template <typename T, typename F>
void bcastCase(const F& call)
{
	int n = ranks();
	MPI_Comm c = comms();
	int root = (int)psx_choose("root", n);
	T what;
	sym(what);
	std::vector<T> out(n);
	sim::run(n, [&](int r) {
		T x;
		if (r == world(c, n, root))
			x = what;
		else
			other(x, r);
		call(x, root, c);
		out[r] = x;
	});
	bool ok = true;
	for (int r = 0; r < n; ++r)
		ok &= eq(out[r], what);
	psx_assert(ok, "after a broadcast every rank has what the root had");
	ob(out[0]);
	ob(out[n - 1]);
}
PSX_CASE(bcast_int) { bcastCase<int>(Bcast()); }
PSX_CASE(bcast_unsigned) { bcastCase<unsigned>(Bcast()); }
PSX_CASE(bcast_size) { bcastCase<Sz>(Bcast()); }
PSX_CASE(bcast_double) { bcastCase<double>(Bcast()); }
PSX_CASE(bcast_pair) { bcastCase<std::pair<int, double>>(Bcast()); }
PSX_CASE(bcast_pair2) { bcastCase<std::pair<double, Sz>>(Bcast()); }
PSX_CASE(bcast_vector_int) { bcastCase<std::vector<int>>(Bcast()); }
PSX_CASE(bcast_vector_size) { bcastCase<std::vector<Sz>>(Bcast()); }
PSX_CASE(bcast_vector_double) { bcastCase<VecD>(Bcast()); }
PSX_CASE(bcast_vector_complex) { bcastCase<std::vector<Cx>>(Bcast()); }
PSX_CASE(bcast_vector_vector) { bcastCase<std::vector<VecD>>(Bcast()); }
PSX_CASE(bcast_vector_vector_int) { bcastCase<std::vector<std::vector<int>>>(Bcast()); }
PSX_CASE(bcast_matrix) { bcastCase<PsimagLite::Matrix<double>>(MemberBcast()); }
PSX_CASE(bcast_matrix_complex) { bcastCase<PsimagLite::Matrix<Cx>>(MemberBcast()); }

template <typename T>
void bcastCrs()
{
	int n = ranks();
	PsimagLite::CrsMatrix<T> what;
	sym(what);
	std::vector<PsimagLite::CrsMatrix<T>> out(n);
	sim::run(n, [&](int r) {
		PsimagLite::CrsMatrix<T> x;
		if (r == 0)
			x = what;
		else if (r > 1)
			x = PsimagLite::CrsMatrix<T>(3, 3, 4);
		PsimagLite::bcast(x);
		out[r] = x;
	});
	bool ok = true;
	for (int r = 0; r < n; ++r)
		ok &= eq(out[r], what);
	psx_assert(ok, "after a broadcast every rank has the sparse matrix of the root");
	ob(out[n - 1]);
}
PSX_CASE(bcast_sparse) { bcastCrs<double>(); }
PSX_CASE(bcast_sparse_complex) { bcastCrs<Cx>(); }

// objects that can broadcast themselves, as many on every rank
PSX_CASE(bcast_objects)
{
	int n = ranks();
	MPI_Comm c = comms();
	int root = (int)psx_choose("root", n);
	typedef PsimagLite::Matrix<double> Mat;
	Sz len = 1 + psx_choose("length", 2);
	std::vector<Mat> what(len);
	for (Sz i = 0; i < len; ++i)
		sym(what[i]);
	std::vector<std::vector<Mat>> out(n);
	sim::run(n, [&](int r) {
		std::vector<Mat> x(len);
		if (r == world(c, n, root))
			x = what;
		MPI::bcast(x, root, c);
		out[r] = x;
	});
	bool ok = true;
	for (int r = 0; r < n; ++r)
		ok &= eq(out[r], what);
	psx_assert(ok, "after a broadcast every rank has the objects of the root");
	ob(out[n - 1]);
}

// ---- reductions
static const int OPS[] = {MPI_SUM, MPI_PROD, MPI_MAX, MPI_MIN};
template <typename T>
T combine(const T& a, const T& b, int op)
{
	if (op == MPI_SUM)
		return a + b;
	if (op == MPI_PROD)
		return a * b;
	if (op == MPI_MAX)
		return (a < b) ? b : a;
	return (b < a) ? b : a;
}
static Cx combine(const Cx& a, const Cx& b, int) { return Cx(a.real() + b.real(), a.imag() + b.imag()); }
static void small(int& x) { x = psx_int("int", -30000, 30000); }
static void small(unsigned& x) { sym(x); }
static void small(Sz& x) { sym(x); }
static void small(double& x) { sym(x); }
static void small(Cx& x) { sym(x); }
template <typename T>
int ops()
{
	// the products of whole 64-bit numbers are left out
	if (PsimagLite::IsComplexNumber<T>::True)
		return MPI_SUM;
	return OPS[psx_choose("op", 4)];
}
template <typename T>
void reduceCase(bool all)
{
	int n = ranks();
	MPI_Comm c = comms();
	int root = all ? 0 : (int)psx_choose("root", n);
	int op = ops<T>();
	Sz len = g_many ? g_many : 1 + psx_choose("length", 2);
	std::vector<std::vector<T>> in(n, std::vector<T>(len)), out(n);
	for (int r = 0; r < n; ++r)
		for (Sz i = 0; i < len; ++i)
			small(in[r][i]);
	sim::run(n, [&](int r) {
		std::vector<T> x = in[r];
		if (all)
			MPI::allReduce(x, op, c);
		else
			MPI::reduce(x, op, root, c);
		out[r] = x;
	});
	std::vector<T> total = in[world(c, n, 0)];
	for (int r = 1; r < n; ++r)
		for (Sz i = 0; i < len; ++i)
			total[i] = combine(total[i], in[world(c, n, r)][i], op);
	bool ok = true, kept = true;
	for (int r = 0; r < n; ++r) {
		if (all || r == world(c, n, root))
			ok &= eq(out[r], total);
		else
			kept &= eq(out[r], in[r]);
	}
	psx_assert(ok, "a reduction combines the values of all ranks");
	psx_assert(kept, "a reduction to one rank leaves the others alone");
	for (int r = 0; r < n; ++r)
		ob(out[r]);
}
PSX_CASE(reduce_int) { reduceCase<int>(false); }
PSX_CASE(reduce_unsigned) { reduceCase<unsigned>(false); }
PSX_CASE(reduce_size) { reduceCase<Sz>(false); }
PSX_CASE(reduce_double) { reduceCase<double>(false); }
PSX_CASE(reduce_complex) { reduceCase<Cx>(false); }
PSX_CASE(allreduce_int) { reduceCase<int>(true); }
PSX_CASE(allreduce_unsigned) { reduceCase<unsigned>(true); }
PSX_CASE(allreduce_size) { reduceCase<Sz>(true); }
PSX_CASE(allreduce_double) { reduceCase<double>(true); }
PSX_CASE(allreduce_complex) { reduceCase<Cx>(true); }

template <typename T>
void allReduceOne()
{
	int n = ranks();
	MPI_Comm c = comms();
	int op = ops<T>();
	std::vector<T> in(n), out(n);
	for (int r = 0; r < n; ++r)
		small(in[r]);
	sim::run(n, [&](int r) {
		T x = in[r];
		MPI::allReduce(x, op, c);
		out[r] = x;
	});
	T total = in[world(c, n, 0)];
	for (int r = 1; r < n; ++r)
		total = combine(total, in[world(c, n, r)], op);
	bool ok = true;
	for (int r = 0; r < n; ++r)
		ok &= eq(out[r], total);
	psx_assert(ok, "a reduction gives every rank the value combined");
	ob(out[n - 1]);
}
PSX_CASE(allreduce_one_int) { allReduceOne<int>(); }
PSX_CASE(allreduce_one_unsigned) { allReduceOne<unsigned>(); }
PSX_CASE(allreduce_one_size) { allReduceOne<Sz>(); }
PSX_CASE(allreduce_one_double) { allReduceOne<double>(); }

template <typename T>
void allReduceMatrix()
{
	int n = ranks();
	MPI_Comm c = comms();
	int op = ops<T>();
	Sz rows = g_many ? 9 : 1 + psx_choose("rows", 2);
	Sz cols = g_many ? 7 : 1 + psx_choose("cols", 2);
	typedef PsimagLite::Matrix<T> Mat;
	std::vector<Mat> in(n), out(n);
	for (int r = 0; r < n; ++r) {
		in[r].resize(rows, cols);
		for (Sz i = 0; i < rows; ++i)
			for (Sz j = 0; j < cols; ++j)
				small(in[r](i, j));
	}
	sim::run(n, [&](int r) {
		Mat x = in[r];
		MPI::allReduce(x, op, c);
		out[r] = x;
	});
	Mat total = in[world(c, n, 0)];
	for (int r = 1; r < n; ++r)
		for (Sz i = 0; i < rows; ++i)
			for (Sz j = 0; j < cols; ++j)
				total(i, j) = combine(total(i, j), in[world(c, n, r)](i, j), op);
	bool ok = true;
	for (int r = 0; r < n; ++r)
		ok &= eq(out[r], total);
	psx_assert(ok, "a reduction gives every rank the matrix combined");
	ob(out[n - 1]);
}
PSX_CASE(allreduce_matrix) { allReduceMatrix<double>(); }
PSX_CASE(allreduce_matrix_complex) { allReduceMatrix<Cx>(); }

// without a communicator a rank is on its own
PSX_CASE(alone)
{
	VecD v(2);
	std::vector<Cx> z(2);
	for (int i = 0; i < 2; ++i) {
		sym(v[i]);
		sym(z[i]);
	}
	VecD v0 = v;
	std::vector<Cx> z0 = z;
	sim::run(1 + (int)psx_choose("ranks", 2), [&](int) {
		VecD x = v;
		MPI::reduce(x, MPI_SUM, 0, 0);
		psx_assert(eq(x, v0), "without a communicator a reduction changes nothing");
		std::vector<Cx> y = z;
		MPI::reduce(y, MPI_SUM, 0, 0);
		psx_assert(eq(y, z0), "without a communicator a reduction changes nothing");
		psx_assert(MPI::commSize(0) == 1 && MPI::commRank(0) == 0, "without a communicator there is one rank");
	});
	ob(v);
}

// ---- messages
struct SendRecv {
	template <typename T>
	void send(T& x, int to, int tag, MPI_Comm c) const { MPI::send(x, to, tag, c); }
	template <typename T>
	void recv(T& x, int from, int tag, MPI_Comm c) const { MPI::recv(x, from, tag, c); }
};
struct MemberSendRecv {
	template <typename T>
	void send(T& x, int to, int tag, MPI_Comm c) const { x.send(to, tag, c); }
	template <typename T>
	void recv(T& x, int from, int tag, MPI_Comm c) const { x.recv(from, tag, c); }
};
template <typename T>
void otherShape(T& x, int r) { other(x, r); }
template <typename T>
void otherShape(PsimagLite::CrsMatrix<T>& x, int r)
{
	if (r > 0)
		x = PsimagLite::CrsMatrix<T>(3, 3, 4);
}
template <typename T, typename F>
void sendCase(const F& f)
{
	int n = PSX_T(2, 2 + (int)psx_choose("ranks", 2));
	MPI_Comm c = comms();
	bool buffered = psx_choose("buffered", 2) == 0;
	int from = (int)psx_choose("from", n);
	int to = (int)psx_choose("to", n);
	psx_assume(from != to);
	if (from == to)
		return;
	int tag = (int)psx_choose("tag", 3);
	int shape = (int)psx_choose("shape", 2);
	T what, second, got, gotSecond;
	sym(what);
	sym(second);
	sim::run(
	    n, [&](int r) {
		    if (r == world(c, n, from)) {
			    T x = what, y = second;
			    f.send(x, to, tag, c);
			    psx_assert(eq(x, what), "sending leaves the value alone");
			    f.send(y, to, tag + 1, c);
		    }
		    if (r == world(c, n, to)) {
			    T x, y;
			    otherShape(x, shape);
			    f.recv(x, from, tag, c);
			    f.recv(y, from, tag + 1, c);
			    got = x;
			    gotSecond = y;
		    }
	    },
	    buffered);
	psx_assert(eq(got, what) & eq(gotSecond, second), "what is received is what was sent");
	ob(got);
	ob(gotSecond);
}
PSX_CASE(send_int) { sendCase<int>(SendRecv()); }
PSX_CASE(send_unsigned) { sendCase<unsigned>(SendRecv()); }
PSX_CASE(send_size) { sendCase<Sz>(SendRecv()); }
PSX_CASE(send_double) { sendCase<double>(SendRecv()); }
PSX_CASE(send_pair) { sendCase<std::pair<int, double>>(SendRecv()); }
PSX_CASE(send_vector_int) { sendCase<std::vector<int>>(SendRecv()); }
PSX_CASE(send_vector_size) { sendCase<std::vector<Sz>>(SendRecv()); }
PSX_CASE(send_vector_double) { sendCase<VecD>(SendRecv()); }
PSX_CASE(send_vector_complex) { sendCase<std::vector<Cx>>(SendRecv()); }
PSX_CASE(send_matrix) { sendCase<PsimagLite::Matrix<double>>(MemberSendRecv()); }
PSX_CASE(send_matrix_complex) { sendCase<PsimagLite::Matrix<Cx>>(MemberSendRecv()); }
PSX_CASE(send_sparse) { sendCase<PsimagLite::CrsMatrix<double>>(MemberSendRecv()); }
PSX_CASE(send_sparse_complex) { sendCase<PsimagLite::CrsMatrix<Cx>>(MemberSendRecv()); }

// ---- gathers: the root gets every task from the rank whose block it is in
template <typename T>
void gatherCase(Sz most)
{
	int n = ranks();
	MPI_Comm c = comms();
	bool buffered = psx_choose("buffered", 2) == 0;
	int root = (int)psx_choose("root", n);
	Sz tasks = g_many ? most : 1 + psx_choose("tasks", most);
	Sz block = (tasks + n - 1) / n;
	std::vector<std::vector<T>> in(n, std::vector<T>(tasks)), out(n);
	for (Sz t = 0; t < tasks; ++t)
		sym(in[world(c, n, (int)(t / block))][t]);
	sim::run(
	    n, [&](int r) {
		    std::vector<T> x = in[r];
		    MPI::pointByPointGather(x, root, c);
		    out[r] = x;
	    },
	    buffered);
	bool ok = true, kept = true;
	for (Sz t = 0; t < tasks; ++t)
		ok &= eq(out[world(c, n, root)][t], in[world(c, n, (int)(t / block))][t]);
	for (int r = 0; r < n; ++r)
		if (r != world(c, n, root))
			kept &= eq(out[r], in[r]);
	psx_assert(ok, "a gather gives the root every task from its rank");
	psx_assert(kept, "a gather leaves the other ranks alone");
	ob(out[world(c, n, root)]);
}
PSX_CASE(gather_int) { gatherCase<int>(PSX_T(5, 7)); }
PSX_CASE(gather_size) { gatherCase<Sz>(PSX_T(5, 7)); }
PSX_CASE(gather_double) { gatherCase<double>(PSX_T(5, 7)); }
PSX_CASE(gather_vector) { gatherCase<VecD>(3); }
PSX_CASE(gather_pair) { gatherCase<std::pair<int, double>>(PSX_T(4, 6)); }
PSX_CASE(gather_matrix) { gatherCase<PsimagLite::Matrix<double>>(PSX_T(2, 3)); }

// ---- loops over the ranks
PSX_CASE(loop)
{
	int n = ranks();
	MPI_Comm c = comms();
	Sz start = psx_choose("start", 3);
	Sz total = psx_choose("total", PSX_T(8, 10));
	VecD value(start + total);
	for (Sz i = start; i < start + total; ++i)
		sym(value[i]);
	std::vector<std::vector<int>> times(n);
	std::vector<VecD> out(n);
	sim::run(n, [&](int r) {
		PsimagLite::InterNode<> nodes(c);
		psx_assert(nodes.size() == (Sz)n && nodes.name() == "mpi", "the loop knows the ranks");
		std::vector<int> t(start + total, 0);
		VecD v(start + total + 1, 0);
		nodes.parallelFor(start, start + total, [&](Sz i, Sz rank) {
			psx_assert(i >= start && i < start + total, "only tasks there are");
			psx_assert((int)rank == world(c, n, r), "tasks are told their rank");
			++t[i];
			v[i] = value[i];
		});
		MPI::allReduce(v, MPI_SUM, c);
		times[r] = t;
		out[r] = v;
	});
	bool ok = true;
	for (Sz i = 0; i < start + total; ++i) {
		int sum = 0;
		for (int r = 0; r < n; ++r)
			sum += times[r][i];
		ok &= sum == (i >= start);
	}
	psx_assert(ok, "every task is done once, on one rank");
	bool same_ = true;
	for (int r = 0; r < n; ++r)
		for (Sz i = start; i < start + total; ++i)
			same_ &= eq(out[r][i], value[i]);
	psx_assert(same_, "the sum over the ranks has the result of every task");
	ob(out[0]);
}

// the same with a policy of the caller, told the weights
struct Policy {
	Policy(Sz tasks, Sz nodes)
	    : tasks_(tasks)
	    , nodes_(nodes)
	{
	}
	void setWeights(const std::vector<Sz>& w)
	{
		psx_assert(w.size() == tasks_, "as many weights as tasks");
		for (Sz i = 0; i < tasks_; ++i)
			psx_assert(w[i] == i + 3, "the weights given");
		ready_ = true;
	}
	Sz blockSize(Sz node) const
	{
		psx_assert(ready_, "the policy has the weights");
		return (tasks_ + nodes_ - 1 - node) / nodes_;
	}
	Sz taskNumber(Sz node, Sz p) const { return p * nodes_ + node; }
	Sz tasks_, nodes_;
	bool ready_ = false;
};
PSX_CASE(loop_policy)
{
	int n = ranks();
	MPI_Comm c = comms();
	Sz start = psx_choose("start", 2);
	Sz total = psx_choose("total", PSX_T(6, 9));
	std::vector<int> times(start + total, 0), mine(start + total, 0);
	std::vector<bool> finished(n, false);
	std::vector<Sz> weights(total);
	for (Sz i = 0; i < total; ++i)
		weights[i] = i + 3;
	std::vector<std::vector<int>> done(n);
	sim::run(n, [&](int r) {
		PsimagLite::InterNode<Policy> nodes(c);
		std::vector<int> d(start + total, 0);
		nodes.parallelFor(start, start + total, [&](Sz i, Sz rank) {
			psx_assert(i >= start && i < start + total, "only tasks there are");
			psx_assert((i - start) % n == rank, "the tasks of this rank");
			++d[i]; },
		                  weights);
		done[r] = d;
		finished[r] = true;
	});
	bool ok = true;
	for (Sz i = start; i < start + total; ++i) {
		int sum = 0;
		for (int r = 0; r < n; ++r)
			sum += done[r][i];
		ok &= sum == 1;
	}
	psx_assert(ok, "every task is done once");
	ob(Sz(total));
}
// no rank goes on after a loop before all ranks did their tasks
PSX_CASE(loop_barrier)
{
	int n = ranks();
	MPI_Comm c = comms();
	Sz total = psx_choose("total", PSX_T(5, 8));
	std::vector<bool> after(n, false);
	std::vector<bool> task(total, false);
	sim::run(n, [&](int r) {
		PsimagLite::InterNode<> nodes(c);
		nodes.parallelFor(0, total, [&](Sz i, Sz) { task[i] = true; });
		for (Sz i = 0; i < total; ++i)
			psx_assert(task[i], "a loop is over when all tasks of all ranks are done");
		after[r] = true;
	});
	ob(Sz(total));
}

// ---- ranks
PSX_CASE(concurrency)
{
	int n = ranks();
	MPI_Comm c = comms();
	int argc = 0;
	char** argv = nullptr;
	std::streambuf* old = std::cout.rdbuf(nullptr);
	Sz inits = 0;
	sim::run(n, [&](int r) {
		Sz before = sim::w->inited;
		Sz beforeFinal = sim::w->finalized;
		{
			PsimagLite::Concurrency conc(&argc, &argv, 1);
			psx_assert(PsimagLite::Concurrency::hasMpi(), "message passing is there");
			Sz me = world(c, n, r);
			psx_assert(PsimagLite::Concurrency::rank(c) == me, "a rank knows itself");
			psx_assert(PsimagLite::Concurrency::nprocs(c) == (Sz)n, "a rank knows how many there are");
			psx_assert(PsimagLite::Concurrency::root(c) == (me == 0), "the first rank is the root");
			psx_assert(PsimagLite::Concurrency::rank() == (Sz)r && PsimagLite::Concurrency::root() == (r == 0), "all ranks by default");
			psx_assert(sim::w->finalized == beforeFinal, "not finished yet");
		}
		psx_assert(sim::w->inited == before + 1 && sim::w->finalized == beforeFinal + 1, "started and finished once");
		++inits;
		MPI::barrier(c);
	});
	std::cout.rdbuf(old);
	ob(inits);
}

// ---- what the library tells about itself
PSX_CASE(info)
{
	int keys = (int)psx_choose("keys", 4);
	std::string text, version;
	sim::run(1, [&](int) {
		sim::w->nkeys = keys;
		std::ostringstream os, os2;
		MPI::info(os);
		MPI::version(os2);
		text = os.str();
		version = os2.str();
	});
	std::string want;
	for (int k = 0; k < keys; k += 2) {
		std::string name = std::string(1, '0' + k) + std::string(MPI_MAX_INFO_KEY - 2, 'k');
		want += "MPI_INFO_ENV key=" + name + " value=" + std::string(k == 0 ? 3 : MPI_MAX_INFO_VAL - 1, 'v') + "\n";
	}
	psx_assert(text == want, "every setting that has a value is printed");
	want = "MPI version=3.1\nMPI_Get_library_version=" + std::string(MPI_MAX_LIBRARY_VERSION_STRING - 1, 'L') + "\nMPI_Get_processor_name=" + std::string(MPI_MAX_PROCESSOR_NAME - 1, 'P') + "\n";
	psx_assert(version == want, "the version is printed");
	psx_observe_str(text);
}

// ---- a call that fails ends the program; it is never taken for a success
template <typename T>
void sym0(T&) { }
template <typename T>
void sym0(std::vector<T>& v) { v.resize(2); }
static void sym0(std::vector<VecD>& v) { v.resize(2, VecD(1, 0.5)); }
static void sym0(PsimagLite::Matrix<double>& m) { m.resize(2, 2, 1.0); }
static void sym0(PsimagLite::Matrix<Cx>& m) { m.resize(2, 2, 1.0); }
template <typename T, typename F>
void failure(const F& f, int calls)
{
	int at = (int)psx_choose("call", calls);
	std::streambuf* old = std::cerr.rdbuf(nullptr);
	bool aborted = false;
	try {
		sim::run(
		    2, [&](int r) {
			    T x;
			    sym0(x);
			    f(x, r);
		    },
		    true, 0, at);
	}
	catch (sim::Aborted&) {
		aborted = true;
	}
	std::cerr.rdbuf(old);
	psx_assert(aborted, "a failure of the message-passing library ends the program");
	psx_observe(aborted);
}
PSX_CASE(failures)
{
	auto bcast = [](auto& x, int) { MPI::bcast(x, 0); };
	auto reduce = [](auto& x, int) { MPI::reduce(x); };
	auto all = [](auto& x, int) { MPI::allReduce(x); };
	auto send = [](auto& x, int r) {
		if (r == 0)
			MPI::send(x, 1, 3);
	};
	auto recv = [](auto& x, int r) {
		if (r == 1)
			MPI::send(x, 0, 3);
		if (r == 0)
			MPI::recv(x, 1, 3);
	};
	switch (psx_choose("which", 20)) {
	case 0:
		failure<int>(bcast, 1);
		break;
	case 1:
		failure<std::pair<int, double>>(bcast, 2);
		break;
	case 2:
		failure<VecD>(bcast, 2);
		break;
	case 3:
		failure<std::vector<Cx>>(bcast, 2);
		break;
	case 4:
		failure<std::vector<VecD>>(bcast, 5);
		break;
	case 5:
		failure<VecD>(reduce, 1);
		break;
	case 6:
		failure<std::vector<Cx>>(reduce, 1);
		break;
	case 7:
		failure<VecD>(all, 1);
		break;
	case 8:
		failure<std::vector<Cx>>(all, 1);
		break;
	case 9:
		failure<double>(all, 1);
		break;
	case 10:
		failure<PsimagLite::Matrix<double>>(all, 1);
		break;
	case 11:
		failure<PsimagLite::Matrix<Cx>>(all, 1);
		break;
	case 12:
		failure<int>(send, 1);
		break;
	case 13:
		failure<VecD>(send, 2);
		break;
	case 14:
		failure<std::vector<Cx>>(send, 2);
		break;
	case 15:
		failure<std::pair<int, double>>(send, 2);
		break;
	case 16:
		failure<int>(recv, 1);
		break;
	case 17:
		failure<VecD>(recv, 2);
		break;
	case 18:
		failure<std::vector<Cx>>(recv, 2);
		break;
	default:
		failure<std::pair<int, double>>(recv, 2);
	}
}

// long vectors, larger matrices, many tasks
PSX_CASE(large)
{
	static const Sz lengths[] = { 17, 70 };
	g_many = lengths[psx_choose("many", 2)];
	switch (psx_choose("what", 12)) {
	case 0:
		bcastCase<VecD>(Bcast());
		break;
	case 1:
		bcastCase<std::vector<Cx>>(Bcast());
		break;
	case 2:
		g_many = 12;
		bcastCase<std::vector<VecD>>(Bcast());
		break;
	case 3:
		bcastCase<PsimagLite::Matrix<Cx>>(MemberBcast());
		break;
	case 4:
		reduceCase<Cx>(false);
		break;
	case 5:
		reduceCase<Cx>(true);
		break;
	case 6:
		allReduceMatrix<Cx>();
		break;
	case 7:
		sendCase<VecD>(SendRecv());
		break;
	case 8:
		sendCase<std::vector<Cx>>(SendRecv());
		break;
	case 9:
		sendCase<PsimagLite::Matrix<double>>(MemberSendRecv());
		break;
	case 10:
		gatherCase<double>(40);
		break;
	default:
		g_many = 6;
		gatherCase<VecD>(20);
	}
	g_many = 0;
}
PSX_CASE(large_loop)
{
	int n = ranks();
	Sz total = 50 + psx_choose("total", 4), start = 3;
	std::vector<std::vector<int>> times(n);
	sim::run(n, [&](int r) {
		PsimagLite::InterNode<> nodes(MPI_COMM_WORLD);
		std::vector<int> t(start + total, 0);
		nodes.parallelFor(start, start + total, [&](Sz i, Sz) {
			psx_assert(i >= start && i < start + total, "only tasks there are");
			++t[i];
		});
		times[r] = t;
	});
	bool ok = true;
	for (Sz i = 0; i < start + total; ++i) {
		int sum = 0;
		for (int r = 0; r < n; ++r)
			sum += times[r][i];
		ok &= sum == (i >= start);
	}
	psx_assert(ok, "every task is done once, on one rank");
	ob(total);
}
// ---- files: only the first rank writes
#include "Io/IoSimple.h"
PSX_CASE(files)
{
	int n = ranks();
	Sz way = psx_choose("way", 5), again = psx_choose("closed", 3);
	int v = psx_int("value", -9, 9);
	const char* name = "psx_p38.txt";
	sim::run(n, [&](int r) {
		PsimagLite::IoSimple::Out out { std::string(name) };
		psx_assert(out.rank() == r, "the rank of the file");
		out.setPrecision(6);
		int x = v + r;
		switch (way) {
		case 0:
			out.write(x, "x");
			break;
		case 1:
			out.write(std::vector<int>(2, x), "x");
			break;
		case 2: {
			PsimagLite::OstringStream msg(6);
			msg() << x;
			out.printline(msg);
			break;
		}
		case 3:
			out.printline(std::string("x"));
			break;
		default:
			out << x;
		}
		if (again)
			out.close();
		if (again == 2) {
			out.open(name, std::ios_base::app);
			out.write(x, "more");
		}
		MPI::barrier(MPI_COMM_WORLD);
	});
	std::ostringstream want;
	if (way == 0)
		want << "x=" << v << "\n";
	else if (way == 1)
		want << "x\n2\n" << v << "\n" << v << "\n\n";
	else if (way == 2)
		want << v << "\n";
	else if (way == 3)
		want << "x\n";
	else
		want << v;
	if (again == 2)
		want << "more=" << v << "\n";
	char buf[100];
	Sz l = psx_get_file(name, buf, 100);
	psx_assert(l < 100 && std::string(buf, l) == want.str(), "the file has what the first rank wrote");
	psx_observe_str(std::string(buf, l));
}
