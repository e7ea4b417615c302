// Cooperative scheduler for replaying a recorded schedule: one thread runs at a time, and at every
// synchronisation operation the next choice of the recording says which one goes on.  The rules are
// those of the symbolic executor (syncPoint, block, schedule in exec.cpp).
#include <condition_variable>
#include <map>
#include <mutex>
#include <pthread.h>
extern "C" {
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
}
namespace {
enum { S_RUN, S_DONE, S_MUTEX, S_JOIN, S_COND };
struct SThread {
	int status = S_RUN;
	const void* on = nullptr;
	int joinee = -1;
	pthread_t id {};
	bool inCond = false;
};
static pthread_mutex_t g_big = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t g_turn = PTHREAD_COND_INITIALIZER;
static std::vector<SThread>& T()
{
	static std::vector<SThread> t(1);
	return t;
}
static std::map<const void*, int>& owners()
{
	static std::map<const void*, int> m;
	return m;
}
static int g_cur = 0, g_granted = -1;
static bool g_on = false;
static std::vector<int> g_sched;
static size_t g_spos = 0;
static thread_local int g_me = 0;

static bool sRunnable(int i)
{
	SThread& t = T()[i];
	switch (t.status) {
	case S_RUN: return true;
	case S_MUTEX: {
		auto it = owners().find(t.on);
		return it == owners().end() || it->second < 0;
	}
	case S_JOIN: return T()[t.joinee].status == S_DONE;
	}
	return false;
}
// with g_big held
static void sSchedule()
{
	std::vector<int> r;
	for (int i = 0; i < (int)T().size(); ++i)
		if (sRunnable(i))
			r.push_back(i);
	if (r.empty()) {
		fprintf(stderr, "PSX: no thread can make progress\n");
		fin(83);
	}
	int k = r[0];
	if (r.size() > 1) {
		if (g_spos < g_sched.size()) {
			k = g_sched[g_spos++];
			bool ok = false;
			for (int x : r)
				ok |= x == k;
			if (!ok) {
				fprintf(stderr, "PSX: the recorded schedule names a thread that cannot run\n");
				fin(79);
			}
		}
	}
	T()[k].status = S_RUN;
	g_cur = g_granted = k;
	__real_pthread_cond_broadcast(&g_turn);
}
static void sWait()
{
	while (g_cur != g_me)
		__real_pthread_cond_wait(&g_turn, &g_big);
}
static void sPoint()
{
	if (!g_on || T().size() <= 1)
		return;
	if (g_granted != g_me) {
		sSchedule();
		sWait();
	}
	g_granted = -1;
}
static void sBlock(int why, const void* on, int joinee = -1)
{
	T()[g_me].status = why;
	T()[g_me].on = on;
	T()[g_me].joinee = joinee;
	sSchedule();
	sWait();
	g_granted = -1;
}
struct Big {
	Big() { __real_pthread_mutex_lock(&g_big); }
	~Big() { __real_pthread_mutex_unlock(&g_big); }
};
struct Start {
	void* (*f)(void*);
	void* a;
	int id;
};
struct AtExit {
	~AtExit()
	{
		Big b;
		T()[g_me].status = S_DONE;
		g_granted = -1;
		sSchedule();
	}
};
static void* sStart(void* p)
{
	Start st = *static_cast<Start*>(p);
	delete static_cast<Start*>(p);
	g_me = st.id;
	{
		Big b;
		sWait();
	}
	AtExit x;
	return st.f(st.a);
}
}
extern "C" {
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*f)(void*), void* a)
{
	if (!g_on)
		return __real_pthread_create(t, at, f, a);
	Big b;
	sPoint();
	int id = (int)T().size();
	T().push_back(SThread());
	int rc = __real_pthread_create(t, at, sStart, new Start { f, a, id });
	if (rc)
		T()[id].status = S_DONE;
	T()[id].id = *t;
	return rc;
}
int __wrap_pthread_join(pthread_t t, void** r)
{
	if (!g_on)
		return __real_pthread_join(t, r);
	int k = -1;
	{
		Big b;
		sPoint();
		for (int i = 1; i < (int)T().size(); ++i)
			if (pthread_equal(T()[i].id, t))
				k = i;
		if (k < 0) {
			fprintf(stderr, "PSX: pthread_join of an invalid thread\n");
			fin(84);
		}
		if (T()[k].status != S_DONE)
			sBlock(S_JOIN, nullptr, k);
	}
	return __real_pthread_join(t, r);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
	if (!g_on)
		return __real_pthread_mutex_lock(m);
	Big b;
	sPoint();
	auto it = owners().emplace(m, -1).first;
	if (it->second == g_me) {
		fprintf(stderr, "PSX: mutex locked twice by the same thread\n");
		fin(83);
	}
	while (it->second >= 0)
		sBlock(S_MUTEX, m);
	it->second = g_me;
	return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
	if (!g_on)
		return 0;
	Big b;
	sPoint();
	auto it = owners().emplace(m, -1).first;
	if (it->second >= 0)
		return 16;
	it->second = g_me;
	return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
	if (!g_on)
		return __real_pthread_mutex_unlock(m);
	Big b;
	sPoint();
	auto it = owners().emplace(m, -1).first;
	if (it->second != g_me) {
		fprintf(stderr, "PSX: mutex unlocked by a thread that does not hold it\n");
		fin(83);
	}
	it->second = -1;
	return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if (!g_on)
		return __real_pthread_cond_wait(c, m);
	Big b;
	sPoint();
	owners()[m] = -1;
	sBlock(S_COND, c);
	while (owners()[m] >= 0)
		sBlock(S_MUTEX, m);
	owners()[m] = g_me;
	return 0;
}
static int wake(pthread_cond_t* c, bool all)
{
	Big b;
	sPoint();
	for (auto& t : T())
		if (t.status == S_COND && t.on == c) {
			t.status = S_RUN;
			if (!all)
				break;
		}
	return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) { return g_on ? wake(c, false) : 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { return g_on ? wake(c, true) : __real_pthread_cond_broadcast(c); }
int __wrap_sched_yield()
{
	if (g_on) {
		Big b;
		sPoint();
	}
	return 0;
}
void psx_yield() { __wrap_sched_yield(); }
}
static void loadSched(const char* file)
{
	std::ifstream f(file);
	int x;
	while (f >> x)
		g_sched.push_back(x);
	g_on = true;
}
