// P25: load balancers partition the tasks.
//@ src: PsimagLite.cpp
//@ bounds: weighted: 0..4/5 tasks with symbolic weights 0..2^20 and 1..5/6 threads, 6/7 tasks of weights 0..2 and 2..3/5 threads, 0..16 equal tasks and 1..9 threads; block distribution: 0..12/24 tasks (symbolic) and 1..6/9 threads, and 0..2^32 tasks with 1..6/16 threads for one symbolic task
//@ assume: the sum of the weights does not overflow
#include "psx.h"
#include "PsimagLite.h"
#include "LoadBalancerDefault.h"
#include "LoadBalancerMpi.h"
#include "LoadBalancerWeights.h"
using namespace PsimagLite;
typedef LoadBalancerWeights::VectorSizeType V;

static void partition(const LoadBalancerWeights& lb, const V& w, SizeType threads)
{
	SizeType n = w.size();
	std::vector<int> seen(n, 0);
	V load(threads, 0), last(threads, 0);
	SizeType total = 0;
	for (SizeType t = 0; t < threads; ++t) {
		SizeType m = lb.blockSize(t);
		total += m;
		psx_assert(m <= n, "no thread has more tasks than there are");
		SizeType prev = 0;
		for (SizeType p = 0; p < m; ++p) {
			int x = lb.taskNumber(t, p);
			psx_assert((x >= 0) & ((SizeType)x < n), "the lists have valid tasks only");
			SizeType k = psx_concrete(x);
			++seen[k];
			load[t] += w[k];
			last[t] = w[k];
			psx_assert((p == 0) | (w[k] <= prev), "heavier tasks first");
			prev = w[k];
		}
	}
	psx_assert(total == n, "number of tasks assigned");
	for (SizeType k = 0; k < n; ++k)
		psx_assert(seen[k] == 1, "every task is given to exactly one thread");
	// the last task of a thread went to it when no other thread had less work
	for (SizeType t = 0; t < threads; ++t) {
		if (lb.blockSize(t) == 0)
			continue;
		for (SizeType u = 0; u < threads; ++u)
			psx_assert(load[t] - last[t] <= load[u], "no thread receives a task while another has less work");
	}
	psx_observe(lb.blockSize(0));
}
PSX_CASE(weights)
{
	SizeType threads = 1 + psx_choose("threads", PSX_T(5, 6));
	SizeType n = psx_choose("tasks", PSX_T(5, 6));
	V w(n);
	for (SizeType k = 0; k < n; ++k)
		w[k] = psx_range("weight", 0, 1 << 20);
	V copy = w;
	LoadBalancerWeights lb(w, threads);
	for (SizeType k = 0; k < n; ++k)
		psx_assert(w[k] == copy[k], "the weights are left as they were");
	partition(lb, w, threads);
}
// more tasks, from few different weights
PSX_CASE(few_weights)
{
	SizeType threads = 2 + psx_choose("threads", PSX_T(2, 4));
	SizeType n = PSX_T(6, 7);
	V w(n);
	for (SizeType k = 0; k < n; ++k)
		w[k] = psx_range("weight", 0, 2);
	LoadBalancerWeights lb(w, threads);
	partition(lb, w, threads);
}
PSX_CASE(equal_weights)
{
	SizeType threads = 1 + psx_choose("threads", 9), n = psx_choose("tasks", 17);
	LoadBalancerWeights lb(n, threads);
	partition(lb, V(n, 1), threads);
	for (SizeType t = 0; t < threads; ++t)
		psx_assert(lb.blockSize(t) == n / threads || lb.blockSize(t) == (n + threads - 1) / threads, "equal tasks are shared evenly");
}
// the block distribution: a thread does its tasks in order and leaves out numbers that are not tasks
static const SizeType MAX = PSX_T(12, 24);
template <typename B>
static void blocks()
{
	SizeType threads = 1 + psx_choose("threads", PSX_T(6, 9)), n = psx_range("tasks", 0, MAX);
	B lb(n, threads);
	std::vector<int> seen(MAX, 0);
	for (SizeType t = 0; t < threads; ++t) {
		SizeType m = lb.blockSize(t);
		psx_assert(m <= MAX, "no thread has more tasks than there are");
		for (SizeType p = 0; p < m; ++p) {
			SizeType x = lb.taskNumber(t, p);
			for (SizeType k = 0; k < MAX; ++k)
				if (x == k)
					++seen[k];
		}
	}
	for (SizeType k = 0; k < MAX; ++k)
		psx_assert((k >= n) | (seen[k] == 1), "every task is given to exactly one thread");
}
PSX_CASE(blocks_default) { blocks<LoadBalancerDefault>(); }
PSX_CASE(blocks_mpi) { blocks<LoadBalancerMpi>(); }
template <typename B>
static void big()
{
	SizeType threads = 1 + psx_choose("threads", PSX_T(6, 16)), n = psx_range("tasks", 1, 1UL << 32), x = psx_range("task", 0, 1UL << 32);
	psx_assume(x < n);
	B lb(n, threads);
	// exactly one thread has the task: blocks are consecutive and have the same size
	SizeType m = lb.blockSize(0);
	psx_assert((m > 0) & (m <= n), "block size");
	SizeType owners = 0;
	for (SizeType t = 0; t < threads; ++t) {
		psx_assert(lb.blockSize(t) == m, "blocks of one size");
		SizeType first = lb.taskNumber(t, 0);
		psx_assert(lb.taskNumber(t, m - 1) == first + m - 1, "tasks of a block are consecutive");
		owners += (x >= first) & (x < first + m);
	}
	psx_assert(owners == 1, "every task is given to exactly one thread");
}
PSX_CASE(big_default) { big<LoadBalancerDefault>(); }
PSX_CASE(big_mpi) { big<LoadBalancerMpi>(); }
