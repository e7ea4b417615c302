// P24: parallel loops.
//@ src: Concurrency.cpp MpiNo.cpp
//@ bounds: assignment policies alone: every task of every number of tasks up to 40/100 on 1..5/8 threads (even policy), every weight in 0..6 for up to 4/5 tasks on 1..3 threads (weighted policy); loops: up to 3/4 tasks on up to 3 threads, every schedule of the threads at creation, completion, joining and one switch inside every task, with the even and the weighted policy, with and without affinities and stack sizes, any of the threads refused by the system; a loop inside the tasks of a loop on threads of its own; loops of 33 and 100 tasks on one thread; policies for 17 to 77 tasks on 2 to 17 threads with one symbolic weight
//@ case large max_instr=60000000
//@ case large_policies max_instr=60000000
//@ assume: threads switch at synchronisation operations and at one point inside every task only, which is enough in the absence of data races, and data races are reported; the system's thread calls are the executor's model of them; stack sizes and refusals are seen at the calls themselves
#include "psx.h"
#include <pthread.h>
#include <sched.h>
#include <cerrno>
#include <map>
#include <vector>
typedef unsigned long Sz;

// what the library asks of the system
struct Asked {
	std::map<const void*, Sz> stack; // by attribute object, once initialised
	Sz refuse = ~Sz(0); // this creation fails
	Sz created = 0;
	std::vector<Sz> stackOf;
	bool affinity = false;
};
static Asked* g_asked = nullptr;
static int ask_attr_init(pthread_attr_t* a)
{
	int r = pthread_attr_init(a);
	if (g_asked)
		g_asked->stack[a] = 0;
	return r;
}
static int ask_attr_setstacksize(pthread_attr_t* a, size_t n)
{
	if (!g_asked)
		return pthread_attr_setstacksize(a, n);
	if (g_asked->stack.count(a) == 0)
		return 0; // not initialised yet: whatever was set is lost
	g_asked->stack[a] = n;
	return pthread_attr_setstacksize(a, n);
}
static int ask_attr_destroy(pthread_attr_t* a)
{
	if (g_asked)
		g_asked->stack.erase(a);
	return pthread_attr_destroy(a);
}
static int ask_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* p)
{
	if (!g_asked)
		return pthread_create(t, a, f, p);
	if (a)
		psx_assert(g_asked->stack.count(a) == 1, "the attributes of a thread were initialised");
	if (g_asked->refuse == g_asked->created++)
		return EAGAIN;
	g_asked->stackOf.push_back(a ? g_asked->stack[a] : 0);
	return pthread_create(t, a, f, p);
}
// the system lets the process run on some of the processors
static Sz g_cpus = 1;
static int ask_getaffinity(cpu_set_t* c)
{
	CPU_ZERO(c);
	for (Sz i = 0; i < g_cpus; ++i)
		CPU_SET(3 * i + 1, c);
	return 0;
}
#define sched_getaffinity(p, n, c) ask_getaffinity(c)
#define sched_setaffinity(p, n, c) 0
#define pthread_attr_setaffinity_np(a, n, c) 0
#define pthread_attr_init ask_attr_init
#define pthread_attr_setstacksize ask_attr_setstacksize
#define pthread_attr_destroy ask_attr_destroy
#define pthread_create ask_create
#include "Parallelizer.h"
#include "Parallelizer2.h"
#include "LoadBalancerWeights.h"
#include "LoadBalancerMpi.h"
#include "InterNode.h"
#include "NoPthreadsNg.h"
using namespace PsimagLite;
typedef std::vector<Sz> Vs;

// ------------------------------------------------------------------ assignment policies
// how often the loops run task k
template <typename B>
static Sz timesRun(const B& b, Sz k, Sz ntasks, Sz nthreads)
{
	Sz c = 0;
	for (Sz t = 0; t < nthreads; ++t) {
		Sz n = b.blockSize(t);
		for (Sz p = 0; p < n; ++p) {
			Sz x = b.taskNumber(t, p);
			if (x >= ntasks)
				break; // so do the loops
			if (x == k)
				++c;
		}
	}
	return c;
}
PSX_CASE(policy_even)
{
	Sz t = 1 + psx_choose("threads", PSX_T(5, 8));
	Sz n = psx_range("tasks", 1, PSX_T(40, 100)), k = psx_range("task", 0, PSX_T(39, 99));
	psx_assume(k < n);
	Sz c = psx_choose("policy", 2) ? timesRun(LoadBalancerMpi(n, t), k, n, t) : timesRun(LoadBalancerDefault(n, t), k, n, t);
	psx_assert(c == 1, "every task is run by one thread, once");
	psx_observe(c);
}
PSX_CASE(policy_weighted)
{
	Sz n = psx_choose("tasks", PSX_T(5, 6)), t = 1 + psx_choose("threads", PSX_T(3, 4));
	if (psx_choose("form", 2) == 0) {
		LoadBalancerWeights b(n, t);
		for (Sz k = 0; k < n; ++k)
			psx_assert(timesRun(b, k, n, t) == 1, "every task is run by one thread, once");
		return;
	}
	Vs w(n);
	for (Sz i = 0; i < n; ++i)
		w[i] = psx_range("weight", 0, 6);
	LoadBalancerWeights b(w, t);
	for (Sz k = 0; k < n; ++k) {
		Sz c = timesRun(b, k, n, t);
		psx_assert(c == 1, "every task is run by one thread, once");
		psx_observe(c);
	}
}

// ------------------------------------------------------------------ loops
struct Task {
	Task(Sz n, Sz first, Sz threads)
	    : n_(n)
	    , first_(first)
	    , threads_(threads)
	    , runs(n, 0)
	    , slot(n, 0)
	    , inUse(threads, 0)
	    , work(threads, 0)
	{
	}
	Sz tasks() const { return n_; }
	void doTask(Sz k, Sz t)
	{
		psx_assert(k >= first_ && k < first_ + n_, "the task is in the range of the loop");
		psx_assert(t < threads_, "the thread number is below the number of threads");
		psx_assert(inUse[t] == 0, "no other task is running under this thread number");
		inUse[t] = 1;
		++runs[k - first_];
		slot[k - first_] = t;
		psx_yield();
		work[t] += k + 1;
		psx_assert(inUse[t] == 1, "no other task has run under this thread number meanwhile");
		inUse[t] = 0;
	}
	void check()
	{
		Sz all = 0, done = 0;
		for (Sz i = 0; i < n_; ++i) {
			psx_assert(runs[i] == 1, "every task was run once when the loop returns");
			all += first_ + i + 1;
			psx_observe(slot[i]);
		}
		for (Sz t = 0; t < threads_; ++t) {
			psx_assert(inUse[t] == 0, "every task is over when the loop returns");
			done += work[t];
		}
		psx_assert(all == done, "the work of every task is visible when the loop returns");
	}
	Sz n_, first_, threads_;
	Vs runs, slot, inUse, work;
};

template <typename B>
static void loopNg(Sz n, Sz t, bool weights, bool affinity, Sz stack)
{
	Task x(n, 0, t);
	CodeSectionParams cs(t, 1, affinity, stack);
	Parallelizer<Task, B> p(cs);
	if (weights) {
		B b(n, t);
		p.loopCreate(x, b);
	} else {
		p.loopCreate(x);
	}
	x.check();
}
PSX_CASE(loop)
{
	Sz n = psx_choose("tasks", PSX_T(4, 5)), t = 1 + psx_choose("threads", PSX_T(2, 3));
	bool w = psx_choose("balancer given", 2);
	loopNg<LoadBalancerDefault>(n, t, w, false, 0);
}
PSX_CASE(loop_three)
{
	loopNg<LoadBalancerDefault>(3, 3 + psx_choose("threads", 2), false, false, 0);
}
PSX_CASE(loop_weighted)
{
	Sz n = psx_choose("tasks", PSX_T(4, 5)), t = 1 + psx_choose("threads", 2);
	Vs w(n);
	for (Sz i = 0; i < n; ++i)
		w[i] = psx_choose("weight", 3);
	Task x(n, 0, t);
	CodeSectionParams cs(t);
	Parallelizer<Task, LoadBalancerWeights> p(cs);
	p.loopCreate(x, w);
	x.check();
}
PSX_CASE(loop_twice)
{
	// thread numbers and threads are free again for the next loop
	Task x(2, 0, 2), y(3, 0, 2);
	CodeSectionParams cs(2);
	Parallelizer<Task> p(cs);
	p.loopCreate(x);
	x.check();
	p.loopCreate(y);
	y.check();
}
static void range(Sz n, Sz t, int form)
{
	Sz first = psx_choose("start", 2) * 5;
	Task x(n, first, t);
	Task* px = &x;
	auto f = [px](Sz k, Sz thread) { px->doTask(k, thread); };
	CodeSectionParams cs(t);
	if (form == 2) {
		Vs w(n);
		for (Sz i = 0; i < n; ++i)
			w[i] = psx_choose("weight", 2);
		Parallelizer2<LoadBalancerWeights> p(cs);
		psx_assert(p.numberOfThreads() == t, "number of threads");
		p.parallelFor(first, first + n, f, w);
	} else if (form == 1) {
		LoadBalancerDefault b(n, t);
		Parallelizer2<> p(cs);
		p.parallelFor(first, first + n, f, b);
	} else {
		Parallelizer2<> p(cs);
		psx_assert(p.numberOfThreads() == t, "number of threads");
		p.parallelFor(first, first + n, f);
	}
	x.check();
}
PSX_CASE(range)
{
	Sz n = psx_choose("tasks", PSX_T(4, 5)), t = 1 + psx_choose("threads", 2);
	range(n, t, psx_choose("form", 2));
}
PSX_CASE(range_nodes)
{
	Sz n = psx_choose("tasks", 5), first = psx_choose("start", 2) * 5;
	Task x(n, first, 1);
	Task* px = &x;
	InterNode<> p(MPI::COMM_WORLD);
	p.parallelFor(first, first + n, [px](Sz k, Sz thread) { px->doTask(k, thread); });
	x.check();
}
PSX_CASE(range_weighted)
{
	Sz n = psx_choose("tasks", 4), t = 1 + psx_choose("threads", 2);
	range(n, t, 2);
}
PSX_CASE(range_three)
{
	Sz n = 1 + psx_choose("tasks", PSX_T(3, 4));
	range(n, 3, 0);
}
PSX_CASE(serial)
{
	Sz n = psx_choose("tasks", 5);
	Task x(n, 0, 1);
	NoPthreadsNg<Task> p(CodeSectionParams(1));
	switch (psx_choose("form", 3)) {
	case 0:
		p.loopCreate(x);
		break;
	case 1:
		p.loopCreate(x, LoadBalancerDefault(n, 1));
		break;
	default: {
		NoPthreadsNg<Task, LoadBalancerWeights> q(CodeSectionParams(1));
		q.loopCreate(x, Vs(n, 2));
	}
	}
	x.check();
}
// the system refuses one of the threads
PSX_CASE(refused)
{
	Sz n = 1 + psx_choose("tasks", 3), t = 1 + psx_choose("threads", PSX_T(2, 3));
	Asked a;
	g_asked = &a;
	a.refuse = psx_choose("refused", t);
	if (psx_choose("interface", 2) == 0)
		loopNg<LoadBalancerDefault>(n, t, false, false, 0);
	else
		range(n, t, 0);
}
// the stack size asked for is the one every thread gets
PSX_CASE(stack)
{
	Asked a;
	g_asked = &a;
	Sz t = 1 + psx_choose("threads", 2);
	Sz size = psx_choose("size", 2) ? 1ul << 20 : 0;
	if (psx_choose("interface", 2) == 0) {
		loopNg<LoadBalancerDefault>(2, t, false, false, size);
	} else {
		Task x(2, 0, t);
		Task* px = &x;
		auto f = [px](Sz k, Sz thread) { px->doTask(k, thread); };
		Parallelizer2<> p(CodeSectionParams(t, 1, false, size));
		p.parallelFor(0, 2, f);
		x.check();
	}
	psx_assert(a.stackOf.size() == t, "as many threads as asked");
	for (Sz i = 0; i < t; ++i)
		psx_assert(a.stackOf[i] == size, "the stack size asked for");
}
PSX_CASE(affinity)
{
	Sz n = psx_choose("tasks", 3), t = 1 + psx_choose("threads", 2);
	g_cpus = psx_choose("processors", 3);
	loopNg<LoadBalancerDefault>(n, t, false, true, 0);
}
// a loop inside the tasks of a loop
struct Outer {
	Outer(Sz n)
	    : inner(n, Task(1, 0, 1))
	{
	}
	Sz tasks() const { return inner.size(); }
	void doTask(Sz k, Sz)
	{
		Task* px = &inner[k];
		auto f = [px](Sz i, Sz thread) { px->doTask(i, thread); };
		Parallelizer2<> p(CodeSectionParams(1));
		p.parallelFor(0, 1, f);
	}
	std::vector<Task> inner;
};
PSX_CASE(nested)
{
	Outer o(2);
	Parallelizer<Outer> p(CodeSectionParams(2));
	p.loopCreate(o);
	o.inner[0].check();
	o.inner[1].check();
}

// many tasks, few of them on the same thread at a time: one thread in every schedule of it, and policies alone
PSX_CASE(large)
{
	Sz n = psx_choose("tasks", 2) ? 33 : 100, kind = psx_choose("kind", 5), first = 7;
	Task x(n, kind >= 2 ? first : 0, 1);
	Task* px = &x;
	auto f = [px](Sz k, Sz thread) { px->doTask(k, thread); };
	CodeSectionParams cs(1);
	Vs w(n);
	for (Sz i = 0; i < n; ++i)
		w[i] = (i * i) % 11;
	if (kind == 0) {
		Parallelizer<Task> p(cs);
		p.loopCreate(x);
	} else if (kind == 1) {
		Parallelizer<Task, LoadBalancerWeights> p(cs);
		p.loopCreate(x, w);
	} else if (kind == 2) {
		Parallelizer2<> p(cs);
		p.parallelFor(first, first + n, f);
	} else if (kind == 3) {
		Parallelizer2<LoadBalancerWeights> p(cs);
		p.parallelFor(first, first + n, f, w);
	} else {
		InterNode<> p(MPI::COMM_WORLD);
		p.parallelFor(first, first + n, f);
	}
	x.check();
}
PSX_CASE(large_policies)
{
	Sz n = 17 + psx_choose("tasks", 3) * 30, t = 2 + psx_choose("threads", 4) * 5;
	Vs w(n);
	for (Sz i = 0; i < n; ++i)
		w[i] = (i * i) % 11;
	w[n / 2] = psx_range("weight", 0, 20);
	LoadBalancerWeights b(w, t);
	for (Sz k = 0; k < n; ++k)
		psx_assert(timesRun(b, k, n, t) == 1, "every task is run by one thread, once");
	LoadBalancerDefault d(n, t);
	LoadBalancerMpi m(n, t);
	for (Sz k = 0; k < n; ++k) {
		psx_assert(timesRun(d, k, n, t) == 1, "every task is run by one thread, once");
		psx_assert(timesRun(m, k, n, t) == 1, "every task is run by one thread, once");
	}
}
