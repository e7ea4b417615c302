#pragma once
#include "mem.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

struct Val {
	u64 lo, hi;
	E e;
	Val* agg; // aggregate elements, count in lo
};
inline Val vc(u64 x) { return Val { x, 0, nullptr, nullptr }; }
inline Val ve(E e)
{
	if (e->isConst())
		return Val { (u64)e->v, (u64)(e->v >> 64), nullptr, nullptr };
	return Val { 0, 0, e, nullptr };
}
inline E toE(const Val& v, int w)
{
	if (v.e)
		return v.e;
	return mkConst(((u128)v.hi << 64) | v.lo, w);
}

struct FuncInfo;
struct Ins {
	llvm::Instruction* I;
	unsigned opc;
	int dest;         // register or -1
	int w;            // width of result / operand in bits (scalars)
	unsigned sub;     // predicate, etc.
	std::vector<int> ops;
	std::vector<u64> imm;          // gep scales etc.
	FuncInfo* callee = nullptr;
	int handler = -1; // builtin
	bool vec = false;
};
struct BlockInfo {
	llvm::BasicBlock* bb;
	int first;       // index of the first non-phi instruction
	int nphi;        // phis precede
	int start;
	std::vector<int> preds;
};
struct FuncInfo {
	llvm::Function* F = nullptr;
	std::string name;
	bool ready = false;
	int nregs = 0;
	std::vector<Ins> ins;
	std::vector<uint8_t> hits;
	std::vector<BlockInfo> blocks;
	std::unordered_map<const llvm::BasicBlock*, int> bidx;
	u64 addr = 0;
	int handler = -1;
	bool executed = false;
};

struct Frame {
	int rc = 1;
	FuncInfo* f;
	int pc;
	int block, prev;
	std::vector<Val> regs;
	std::vector<u64> allocas;
	std::vector<Val> varargs;
	std::vector<int> varargW;
	bool ctor = false;
};

typedef std::map<int, u64> VClock;
struct Thread {
	std::vector<Frame*> st;
	int id = 0;
	enum { RUN, DONE, BLOCK_MUTEX, BLOCK_JOIN, BLOCK_COND } status = RUN;
	u64 waitOn = 0;
	u64 waitMutex = 0;
	u64 retval = 0;
	bool joined = false;
	u64 excObj = 0, excType = 0; // in flight
	std::vector<u64> caught;
	VClock vc;
};
struct ExcInfo {
	u64 type, dtor;
	int handlers;
	bool rethrown;
};
struct InputRec {
	E e; // null: concrete
	u64 c;
};
struct ObsRec {
	Val v;
	int w;
	bool fp;
};
struct Shadow {
	int wtid = -1;
	u64 wclk = 0;
	std::map<int, u64> reads;
};

struct State {
	Mem mem;
	std::vector<Thread> th;
	int cur = 0;
	std::vector<E> pc;
	Model model;
	std::unordered_map<E, u64> conc;
	std::vector<InputRec> inputs;
	std::vector<ObsRec> obs;
	std::map<u64, ExcInfo> exc;
	std::map<u64, std::pair<int, VClock>> mutexes; // addr -> owner (-1 free), release clock
	std::map<u64, VClock> syncClk;
	std::map<u64, Shadow> shadow;
	std::vector<int> sched;
	bool needSched = false;
	u64 icount = 0;
	bool abortOk = false;
	int forkDepth = 0;
	std::map<std::string, u64> misc;
	int errnoObj = 0;
	State() { }
	State(const State& o);
	~State();
	Thread& t() { return th[cur]; }
	Frame* top() { return th[cur].st.back(); }
	Frame* wtop();
};
