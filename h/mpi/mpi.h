// A message-passing library for the P38 harness: the part of the MPI interface PsimagLite calls,
// over ranks that are run one after another in this process.  A rank runs until it needs
// something another rank has not done yet; it is then unwound, and run again from the start with
// what it already did answered from its log.  Because no call here can receive from "any" rank,
// the outcome does not depend on the order in which the ranks make progress.
// The rules of MPI are checked: matching of kinds, roots, operations, types and lengths, no
// aliasing of buffers, messages that do not overtake each other, nothing left over at the end.
#pragma once
#include "psx.h"
#include <functional>
#include <list>
#include <vector>
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
struct MPI_Status {
	int MPI_SOURCE, MPI_TAG, MPI_ERROR;
};
enum { MPI_COMM_NULL_ = 0,
       MPI_COMM_WORLD = 0x44000000,
       SIM_COMM_REVERSED = 0x44000001 };
enum { MPI_INTEGER = 101,
       MPI_INT,
       MPI_UNSIGNED,
       MPI_LONG,
       MPI_UNSIGNED_LONG,
       MPI_DOUBLE,
       MPI_FLOAT,
       MPI_CHAR,
       MPI_BYTE };
enum { MPI_SUM = 201,
       MPI_MAX,
       MPI_MIN,
       MPI_PROD };
enum { MPI_SUCCESS = 0,
       MPI_ERR_OTHER = 15 };
enum { MPI_INFO_ENV = 301 };
#define MPI_MAX_ERROR_STRING 64
#define MPI_MAX_LIBRARY_VERSION_STRING 64
#define MPI_MAX_PROCESSOR_NAME 32
#define MPI_MAX_INFO_KEY 16
#define MPI_MAX_INFO_VAL 32

namespace sim {
typedef std::vector<unsigned char> Bytes;
struct Blocked { };
struct Aborted { };
struct Message {
	int from, to, tag, comm, type;
	int count;
	Bytes data;
	bool taken;
};
struct Collective {
	int kind, root, op, type, count;
	std::vector<Bytes> data; // by rank in the communicator
	std::vector<bool> in;
	int present;
};
struct Done {
	int kind;
	Bytes out;
};
enum { SEND = 1,
       RECV,
       BCAST,
       REDUCE,
       ALLREDUCE,
       BARRIER };
struct World {
	int n = 1;
	bool buffered = true;
	int failRank = -1, failOp = -1;
	int cur = 0;
	bool moved = false;
	std::vector<std::vector<Done>> log;
	std::vector<size_t> pos;
	std::vector<Message*> posted; // sends under way
	std::vector<bool> waiting; // this rank has put its part into its next collective
	std::vector<std::vector<int>> ncoll; // per rank and communicator
	std::list<Message> messages;
	std::vector<std::vector<Collective>> coll; // per communicator
	int inited = 0, finalized = 0;
	int nkeys = 0;
};
extern World* w;

inline int commIndex(MPI_Comm c)
{
	psx_assert(c == MPI_COMM_WORLD || c == SIM_COMM_REVERSED, "MPI: a valid communicator");
	return c == MPI_COMM_WORLD ? 0 : 1;
}
// rank in a communicator <-> rank in the world (its own inverse)
inline int other(MPI_Comm c, int r) { return c == MPI_COMM_WORLD ? r : w->n - 1 - r; }
inline int sizeOf(MPI_Datatype t)
{
	switch (t) {
	case MPI_INTEGER:
	case MPI_INT:
	case MPI_UNSIGNED:
	case MPI_FLOAT:
		return 4;
	case MPI_LONG:
	case MPI_UNSIGNED_LONG:
	case MPI_DOUBLE:
		return 8;
	case MPI_CHAR:
	case MPI_BYTE:
		return 1;
	}
	psx_assert(false, "MPI: a valid type");
	return 1;
}
inline Bytes grab(const void* p, long n)
{
	Bytes b(n);
	if (n)
		memcpy(b.data(), p, n);
	return b;
}
inline void put(void* p, const Bytes& b)
{
	if (b.size())
		memcpy(p, b.data(), b.size());
}
template <typename T>
void fold1(unsigned char* acc, const unsigned char* x, int op)
{
	T a, b;
	memcpy(&a, acc, sizeof(T));
	memcpy(&b, x, sizeof(T));
	switch (op) {
	case MPI_SUM:
		a = a + b;
		break;
	case MPI_PROD:
		a = a * b;
		break;
	case MPI_MAX:
		a = a < b ? b : a;
		break;
	case MPI_MIN:
		a = b < a ? b : a;
		break;
	default:
		psx_assert(false, "MPI: a valid operation");
	}
	memcpy(acc, &a, sizeof(T));
}
inline Bytes fold(const Collective& c)
{
	Bytes acc = c.data[0];
	for (int r = 1; r < w->n; ++r)
		for (int i = 0; i < c.count; ++i) {
			int s = sizeOf(c.type);
			unsigned char* a = &acc[0] + i * s;
			const unsigned char* x = &c.data[r][0] + i * s;
			switch (c.type) {
			case MPI_INTEGER:
			case MPI_INT:
				fold1<int>(a, x, c.op);
				break;
			case MPI_UNSIGNED:
				fold1<unsigned>(a, x, c.op);
				break;
			case MPI_LONG:
				fold1<long>(a, x, c.op);
				break;
			case MPI_UNSIGNED_LONG:
				fold1<unsigned long>(a, x, c.op);
				break;
			case MPI_DOUBLE:
				fold1<double>(a, x, c.op);
				break;
			default:
				psx_assert(false, "MPI: a type that can be reduced");
			}
		}
	return acc;
}
// one call by the current rank begins: an injected failure, or an answer from the log
inline bool begin(int kind, int& err, void* out, const char* = 0)
{
	size_t p = w->pos[w->cur];
	err = MPI_SUCCESS;
	if (w->failRank == w->cur && (int)p == w->failOp) {
		err = MPI_ERR_OTHER;
		return true;
	}
	if (p < w->log[w->cur].size()) {
		const Done& d = w->log[w->cur][p];
		psx_assert(d.kind == kind, "ranks do the same when run again");
		put(out, d.out);
		++w->pos[w->cur];
		return true;
	}
	return false;
}
inline void end(int kind, void* out, const Bytes& data)
{
	put(out, data);
	w->log[w->cur].push_back(Done{kind, data});
	++w->pos[w->cur];
	w->moved = true;
}
inline int collective(int kind, const void* in, void* out, int count, int type, int op, int root, MPI_Comm comm)
{
	int ci = commIndex(comm);
	int idx = w->ncoll[w->cur][ci]++;
	int err;
	if (begin(kind, err, out))
		return err;
	int me = other(comm, w->cur);
	std::vector<Collective>& all = w->coll[ci];
	psx_assert(root >= 0 && root < w->n, "MPI: the root is a rank");
	psx_assert(count >= 0, "MPI: a number of elements");
	if ((int)all.size() == idx)
		all.push_back(Collective{kind, root, op, type, count, std::vector<Bytes>(w->n), std::vector<bool>(w->n, false), 0});
	Collective& c = all[idx];
	if (!c.in[me]) {
		psx_assert(!w->waiting[w->cur], "one collective at a time");
		psx_assert(c.kind == kind && c.root == root && c.op == op, "MPI: all ranks make the same collective call");
		psx_assert(c.type == type && c.count == count, "MPI: all ranks pass as many elements of the same type");
		c.in[me] = true;
		++c.present;
		if (in && (kind != BCAST || me == root))
			c.data[me] = grab(in, (long)count * sizeOf(type));
		w->moved = true;
	}
	if (c.present < w->n) {
		w->waiting[w->cur] = true;
		throw Blocked();
	}
	w->waiting[w->cur] = false;
	Bytes result;
	if (kind == BCAST) {
		if (me != root)
			result = c.data[root];
	}
	else if (kind == ALLREDUCE || (kind == REDUCE && me == root))
		result = fold(c);
	end(kind, out, result);
	return MPI_SUCCESS;
}

// run body(rank) on n ranks to the end
template <typename F>
void run(int n, const F& body, bool buffered = true, int failRank = -1, int failOp = -1)
{
	World world;
	world.n = n;
	world.buffered = buffered;
	world.failRank = failRank;
	world.failOp = failOp;
	world.log.resize(n);
	world.pos.resize(n, 0);
	world.posted.resize(n, nullptr);
	world.waiting.resize(n, false);
	world.ncoll.resize(n, std::vector<int>(2, 0));
	world.coll.resize(2);
	w = &world;
	std::vector<bool> done(n, false);
	int left = n;
	while (left) {
		world.moved = false;
		for (int r = 0; r < n; ++r) {
			if (done[r])
				continue;
			world.cur = r;
			world.pos[r] = 0;
			world.ncoll[r] = std::vector<int>(2, 0);
			try {
				body(r);
				psx_assert(world.pos[r] == world.log[r].size(), "ranks do the same when run again");
				done[r] = true;
				--left;
				world.moved = true;
			}
			catch (Blocked&) {
			}
		}
		psx_assert(world.moved, "no rank waits for ever");
		if (!world.moved)
			psx_stop();
	}
	for (std::list<Message>::iterator m = world.messages.begin(); m != world.messages.end(); ++m)
		psx_assert(m->taken, "every message sent is received");
	for (int c = 0; c < 2; ++c)
		for (size_t i = 0; i < world.coll[c].size(); ++i)
			psx_assert(world.coll[c][i].present == n, "all ranks take part in every collective call");
	w = nullptr;
}
} // namespace sim

inline int MPI_Send(const void* p, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm)
{
	using namespace sim;
	int err;
	if (begin(SEND, err, nullptr))
		return err;
	commIndex(comm);
	psx_assert(dest >= 0 && dest < w->n && tag >= 0 && count >= 0, "MPI: a rank, a tag and a length");
	Message*& m = w->posted[w->cur];
	if (!m) {
		w->messages.push_back(Message{other(comm, w->cur), dest, tag, comm, type, count, grab(p, (long)count * sizeOf(type)), false});
		m = &w->messages.back();
		w->moved = true;
	}
	if (!w->buffered && !m->taken)
		throw Blocked();
	m = nullptr;
	end(SEND, nullptr, Bytes());
	return MPI_SUCCESS;
}
inline int MPI_Recv(void* p, int count, MPI_Datatype type, int source, int tag, MPI_Comm comm, MPI_Status* st)
{
	using namespace sim;
	int err;
	if (begin(RECV, err, p))
		return err;
	commIndex(comm);
	psx_assert(source >= 0 && source < w->n && tag >= 0 && count >= 0, "MPI: a rank, a tag and a length");
	int me = other(comm, w->cur);
	for (std::list<Message>::iterator m = w->messages.begin(); m != w->messages.end(); ++m) {
		if (m->taken || m->comm != comm || m->from != source || m->to != me || m->tag != tag)
			continue;
		psx_assert(m->type == type, "MPI: what is received has the type of what was sent");
		psx_assert(m->count <= count, "MPI: the message fits");
		m->taken = true;
		st->MPI_SOURCE = source;
		st->MPI_TAG = tag;
		end(RECV, p, m->data);
		return MPI_SUCCESS;
	}
	throw Blocked();
}
inline int MPI_Bcast(void* p, int count, MPI_Datatype type, int root, MPI_Comm comm)
{
	return sim::collective(sim::BCAST, p, p, count, type, 0, root, comm);
}
inline int MPI_Reduce(const void* in, void* out, int count, MPI_Datatype type, MPI_Op op, int root, MPI_Comm comm)
{
	psx_assert(in != out || count == 0, "MPI: buffers do not overlap");
	return sim::collective(sim::REDUCE, in, out, count, type, op, root, comm);
}
inline int MPI_Allreduce(const void* in, void* out, int count, MPI_Datatype type, MPI_Op op, MPI_Comm comm)
{
	psx_assert(in != out || count == 0, "MPI: buffers do not overlap");
	return sim::collective(sim::ALLREDUCE, in, out, count, type, op, 0, comm);
}
inline int MPI_Barrier(MPI_Comm comm)
{
	return sim::collective(sim::BARRIER, nullptr, nullptr, 0, MPI_BYTE, 0, 0, comm);
}
inline int MPI_Comm_size(MPI_Comm comm, int* n)
{
	sim::commIndex(comm);
	*n = sim::w->n;
	return MPI_SUCCESS;
}
inline int MPI_Comm_rank(MPI_Comm comm, int* r)
{
	sim::commIndex(comm);
	*r = sim::other(comm, sim::w->cur);
	return MPI_SUCCESS;
}
inline int MPI_Init(int*, char***)
{
	++sim::w->inited;
	return MPI_SUCCESS;
}
inline int MPI_Finalize()
{
	++sim::w->finalized;
	return MPI_SUCCESS;
}
inline int MPI_Abort(MPI_Comm, int) { throw sim::Aborted(); }
inline int MPI_Error_string(int, char* s, int* n)
{
	strcpy(s, "failed");
	*n = 6;
	return MPI_SUCCESS;
}
inline int MPI_Get_version(int* a, int* b)
{
	*a = 3;
	*b = 1;
	return MPI_SUCCESS;
}
inline int MPI_Get_library_version(char* s, int* n)
{
	memset(s, 'L', MPI_MAX_LIBRARY_VERSION_STRING - 1);
	s[MPI_MAX_LIBRARY_VERSION_STRING - 1] = 0;
	*n = MPI_MAX_LIBRARY_VERSION_STRING - 1;
	return MPI_SUCCESS;
}
inline int MPI_Get_processor_name(char* s, int* n)
{
	memset(s, 'P', MPI_MAX_PROCESSOR_NAME - 1);
	s[MPI_MAX_PROCESSOR_NAME - 1] = 0;
	*n = MPI_MAX_PROCESSOR_NAME - 1;
	return MPI_SUCCESS;
}
// keys k0, k1, ... ; every second one has no value
inline int MPI_Info_get_nkeys(MPI_Info, int* n)
{
	*n = sim::w->nkeys;
	return MPI_SUCCESS;
}
inline int MPI_Info_get_nthkey(MPI_Info, int i, char* key)
{
	memset(key, 'k', MPI_MAX_INFO_KEY - 1);
	key[MPI_MAX_INFO_KEY - 1] = 0;
	key[0] = '0' + i;
	return MPI_SUCCESS;
}
inline int MPI_Info_get_valuelen(MPI_Info, const char* key, int* len, int* flag)
{
	int i = key[0] - '0';
	*flag = (i % 2 == 0);
	if (*flag)
		*len = i == 0 ? 3 : MPI_MAX_INFO_VAL - 1;
	return MPI_SUCCESS;
}
inline int MPI_Info_get(MPI_Info, const char* key, int len, char* value, int* flag)
{
	int i = key[0] - '0';
	int n = i == 0 ? 3 : MPI_MAX_INFO_VAL - 1;
	psx_assert(len >= n, "MPI: room for the value");
	memset(value, 'v', n);
	value[n] = 0;
	*flag = 1;
	return MPI_SUCCESS;
}
