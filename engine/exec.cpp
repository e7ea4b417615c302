// Forking symbolic executor for LLVM bitcode.
#include "exec.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <pthread.h>
#include <sstream>
#include <sys/resource.h>
#include <unistd.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;

// ------------------------------------------------------------------ globals
static LLVMContext g_ctx;
static std::unique_ptr<Module> g_mod;
static const DataLayout* g_dl;
static std::unordered_map<const Function*, FuncInfo*> g_funcs;
static std::unordered_map<u64, FuncInfo*> g_funcAddr;
static std::vector<Val> g_consts;
static std::unordered_map<const Constant*, int> g_constIdx;
static std::unordered_map<const GlobalVariable*, u64> g_gaddr;
static std::vector<State*> g_work;
static std::string g_repo = "/repo/src";
static u64 g_maxInstr = 3000000, g_totalInstr = 0, g_forks = 0, g_paths = 0, g_killed = 0, g_states = 0;
static double g_deadline = 0;
static std::set<std::string> g_incomplete;
static std::map<std::string, u64> g_covers;
static std::vector<u64> g_typeids;
static u64 g_pathsDoneOk = 0, g_exitThreads = 0;
static unsigned g_maxViol = 4;
static bool g_verbose = false;
static int g_nSamples = 6;
static u64 g_schedules = 0, g_assertsChecked = 0, g_assertsSymbolic = 0;
static std::vector<u64> g_fixedInputs;
static bool g_useFixed = false;

struct ViolationRec {
	std::string kind, msg, loc;
	std::vector<u64> inputs;
	std::vector<int> sched;
};
static std::vector<ViolationRec> g_viol;
static std::set<std::string> g_violKeys;
struct Sample {
	std::vector<u64> inputs;
	std::vector<std::pair<int, std::string>> obs;
	std::vector<int> sched;
};
static std::vector<Sample> g_samples;
static u64 g_sampleSeen = 0;

static double now()
{
	return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct PathEnd {
	int why; // 0 completed, 1 killed, 2 violation, 3 unsupported
};
struct Reexec { }; // instruction will be executed again (scheduling)

// ------------------------------------------------------------------ State
State::State(const State& o)
    : mem(o.mem)
    , th(o.th)
    , cur(o.cur)
    , pc(o.pc)
    , model(o.model)
    , conc(o.conc)
    , inputs(o.inputs)
    , obs(o.obs)
    , exc(o.exc)
    , mutexes(o.mutexes)
    , syncClk(o.syncClk)
    , shadow(o.shadow)
    , sched(o.sched)
    , needSched(o.needSched)
    , icount(o.icount)
    , abortOk(o.abortOk)
    , forkDepth(o.forkDepth)
    , misc(o.misc)
{
	for (auto& t : th)
		for (Frame* f : t.st)
			++f->rc;
}
State::~State()
{
	for (auto& t : th)
		for (Frame* f : t.st)
			if (--f->rc == 0)
				delete f;
}
Frame* State::wtop()
{
	Frame*& f = th[cur].st.back();
	if (f->rc > 1) {
		Frame* n = new Frame(*f);
		n->rc = 1;
		--f->rc;
		f = n;
	}
	return f;
}

static Val* allocAgg(size_t n)
{
	static Val* arena = nullptr;
	static size_t left = 0;
	if (n > left) {
		left = std::max<size_t>(n, 16384);
		arena = (Val*)malloc(left * sizeof(Val));
	}
	Val* r = arena;
	arena += n;
	left -= n;
	return r;
}
static Val mkAgg(const std::vector<Val>& v)
{
	Val r;
	r.lo = v.size();
	r.hi = 0;
	r.e = nullptr;
	r.agg = allocAgg(v.size());
	std::copy(v.begin(), v.end(), r.agg);
	return r;
}

static int typeBits(Type* t)
{
	if (t->isPointerTy())
		return 64;
	if (t->isIntegerTy())
		return (int)t->getIntegerBitWidth();
	if (t->isDoubleTy())
		return 64;
	if (t->isFloatTy())
		return 32;
	if (t->isX86_FP80Ty())
		return 80;
	return 0;
}

// ------------------------------------------------------------------ source locations
static std::string locOf(const Instruction* I)
{
	if (!I)
		return "?";
	std::string r;
	const DILocation* d = I->getDebugLoc().get();
	int n = 0;
	while (d && n < 12) {
		std::string f = d->getFilename().str();
		if (!f.empty() && f[0] != '/')
			f = d->getDirectory().str() + "/" + f;
		r += (r.empty() ? "" : " < ") + f + ":" + std::to_string(d->getLine());
		d = d->getInlinedAt();
		++n;
	}
	return r.empty() ? "?" : r;
}
static std::string stackOf(State& s)
{
	std::string r;
	auto& st = s.t().st;
	for (int i = (int)st.size() - 1; i >= 0 && (int)st.size() - i < 14; --i) {
		Frame* f = st[i];
		int pc = f->pc < (int)f->f->ins.size() ? f->pc : 0;
		if (f->f->ins.empty())
			continue;
		r += "    " + demangle(f->f->name) + " @ " + locOf(f->f->ins[pc].I) + "\n";
	}
	return r;
}
static std::string repoLoc(State& s)
{
	auto& st = s.t().st;
	for (int i = (int)st.size() - 1; i >= 0; --i) {
		Frame* f = st[i];
		if (f->f->ins.empty())
			continue;
		const Instruction* I = f->f->ins[std::min<size_t>(f->pc, f->f->ins.size() - 1)].I;
		const DILocation* d = I->getDebugLoc().get();
		while (d) {
			std::string fn = d->getFilename().str();
			if (!fn.empty() && fn[0] != '/')
				fn = d->getDirectory().str() + "/" + fn;
			if (fn.compare(0, g_repo.size(), g_repo) == 0)
				return fn + ":" + std::to_string(d->getLine());
			d = d->getInlinedAt();
		}
	}
	return st.empty() || st.back()->f->ins.empty() ? "?" : locOf(st.back()->f->ins[std::min<size_t>(st.back()->pc, st.back()->f->ins.size() - 1)].I);
}

static std::vector<u64> inputValues(State& s, const Model& m)
{
	std::vector<u64> r;
	for (auto& i : s.inputs)
		r.push_back(i.e ? (u64)evalE(i.e, m) : i.c);
	return r;
}

static void report(State& s, const Model& m, const std::string& kind, const std::string& msg)
{
	std::string loc = repoLoc(s);
	std::string key = kind + "|" + loc + "|" + (kind == "assert" ? msg : "");
	if (g_violKeys.count(key))
		return;
	g_violKeys.insert(key);
	ViolationRec v;
	v.kind = kind;
	v.msg = msg;
	v.loc = loc;
	v.inputs = inputValues(s, m);
	v.sched = s.sched;
	g_viol.push_back(v);
	if (g_verbose)
		fprintf(stderr, "violation candidate: %s: %s at %s\n%s", kind.c_str(), msg.c_str(), loc.c_str(), stackOf(s).c_str());
}
[[noreturn]] static void violate(State& s, const std::string& kind, const std::string& msg)
{
	report(s, s.model, kind, msg);
	throw PathEnd { 2 };
}
[[noreturn]] static void unsupported(State& s, const std::string& what)
{
	if (g_incomplete.insert("unsupported: " + what).second && g_verbose)
		fprintf(stderr, "unsupported: %s\n%s", what.c_str(), stackOf(s).c_str());
	throw PathEnd { 3 };
}

// ------------------------------------------------------------------ path condition
static State* cloneState(State& s)
{
	State* n = new State(s);
	++g_states;
	return n;
}
static void pushWork(State* n)
{
	++g_forks;
	n->forkDepth++;
	g_work.push_back(n);
}
static void addPc(State& s, E c)
{
	if (c->isConst())
		return;
	if (c->op == K::AND && c->w == 1) {
		addPc(s, c->a);
		addPc(s, c->b);
		return;
	}
	for (E x : s.pc)
		if (x == c)
			return;
	s.pc.push_back(c);
}
// 1 true, 0 false under the path condition syntactically, -1 otherwise
static int known(State& s, E& c)
{
	if (c->isConst())
		return c->v != 0;
	E n = mkNot(c);
	for (E x : s.pc) {
		if (x == c)
			return 1;
		if (x == n)
			return 0;
	}
	if (c->hasIte) {
		E d = simplifyUnder(s.pc, c);
		if (d != c) {
			c = d;
			return known(s, c);
		}
	}
	return -1;
}
static Sat feasible(State& s, E c, Model& out)
{
	int k = known(s, c);
	if (k == 0)
		return Sat::NO;
	if (k == 1) {
		out = s.model;
		return Sat::YES;
	}
	Sat r = solveWith(s.pc, c, s.model, out);
	if (r == Sat::UNKNOWN)
		g_incomplete.insert("solver gave no answer within its limit at " + repoLoc(s));
	return r;
}
// Decide c; when both outcomes are possible, returns the clone that takes the other side
// (its constraint and model already updated) in `other`.
static bool decide(State& s, E c, State*& other)
{
	other = nullptr;
	int k = known(s, c);
	if (k >= 0)
		return k;
	bool v = evalE(c, s.model) != 0;
	E here = v ? c : mkNot(c);
	E there = mkNot(here);
	Model m;
	Sat r = feasible(s, there, m);
	if (r == Sat::YES) {
		other = cloneState(s);
		addPc(*other, there);
		other->model = m;
	}
	if (r != Sat::NO)
		addPc(s, here);
	return v;
}
// Concretize by forking over every feasible value; the clone re-executes the instruction.
static u64 concretize(State& s, const Val& v, int w)
{
	if (!v.e)
		return v.lo;
	auto it = s.conc.find(v.e);
	if (it != s.conc.end())
		return it->second;
	E ve = simplifyUnder(s.pc, v.e);
	if (ve->isConst()) {
		s.conc[v.e] = (u64)ve->v;
		return (u64)ve->v;
	}
	u64 x = (u64)evalE(ve, s.model);
	E eq = mkEq(ve, mkConst(x, ve->w));
	Model m;
	Sat r = feasible(s, mkNot(eq), m);
	if (r == Sat::YES) {
		State* o = cloneState(s);
		addPc(*o, mkNot(eq));
		o->model = m;
		pushWork(o);
	}
	if (r != Sat::NO)
		addPc(s, eq);
	s.conc[v.e] = x;
	return x;
}
static bool branchOn(State& s, E c)
{ // like decide, but the clone re-executes the instruction and will find the answer in its path condition
	State* o;
	bool v = decide(s, c, o);
	if (o)
		pushWork(o);
	return v;
}

// ------------------------------------------------------------------ memory
static void raceCheck(State& s, u64 addr, u64 n, bool write, bool atomic);

static const Obj* checkAccess(State& s, u64 addr, u64 n, bool write)
{
	const Obj* o = s.mem.get(addr >> 32);
	if (!o) {
		if (addr < 4096 || (addr >> 32) == 0)
			violate(s, "memory", "null pointer access");
		violate(s, "memory", "access outside any object (returned-from stack frame or wild pointer)");
	}
	if (!o->alive)
		violate(s, "memory", "use after free");
	u64 off = addr & 0xffffffffu;
	if (off + n > o->size) {
		char b[128];
		snprintf(b, sizeof b, "%s of %llu bytes at offset %lld of an object of %llu bytes", write ? "write" : "read", (unsigned long long)n, (long long)(int32_t)off, (unsigned long long)o->size);
		violate(s, "memory", b);
	}
	if (write && o->ro)
		violate(s, "memory", "write to constant");
	return o;
}
static E byteE(const Obj* o, u64 off)
{
	if (o->sym && o->sym[off].e)
		return mkExtract(o->sym[off].e, (int)o->sym[off].idx * 8, 8);
	return mkConst(o->data[off], 8);
}
static Val loadRaw(State& s, const Obj* o, u64 off, int w)
{
	u64 n = (w + 7) / 8;
	if (!o->sym || !o->rangeSym(off, n)) {
		Val r { 0, 0, nullptr, nullptr };
		if (n <= 8)
			memcpy(&r.lo, o->data + off, n);
		else {
			memcpy(&r.lo, o->data + off, 8);
			memcpy(&r.hi, o->data + off + 8, std::min<u64>(n - 8, 8));
		}
		if (w < 64)
			r.lo &= (u64)maskw(w);
		return r;
	}
	E e0 = o->sym[off].e;
	if (e0 && o->sym[off].idx == 0 && e0->w == 8 * n) {
		bool ok = true;
		for (u64 i = 1; i < n && ok; ++i)
			ok = o->sym[off + i].e == e0 && o->sym[off + i].idx == i;
		if (ok) {
			if (w != (int)(8 * n))
				return ve(mkExtract(e0, 0, w));
			return ve(e0);
		}
	}
	E r = byteE(o, off);
	for (u64 i = 1; i < n; ++i)
		r = mkConcat(byteE(o, off + i), r);
	if (r->w != w)
		r = mkExtract(r, 0, w);
	return ve(r);
}
static void storeRaw(Obj* o, u64 off, const Val& v, int w)
{
	u64 n = (w + 7) / 8;
	if (!v.e) {
		u64 lo = v.lo;
		if (w < 64)
			lo &= (u64)maskw(w);
		if (n <= 8)
			memcpy(o->data + off, &lo, n);
		else {
			memcpy(o->data + off, &v.lo, 8);
			memcpy(o->data + off + 8, &v.hi, std::min<u64>(n - 8, 8));
		}
		if (o->sym)
			for (u64 i = 0; i < n; ++i)
				o->sym[off + i].e = nullptr;
		return;
	}
	E e = v.e;
	if (e->w != (int)(8 * n))
		e = mkZext(e, 8 * n);
	o->needSym();
	for (u64 i = 0; i < n; ++i) {
		o->sym[off + i].e = e;
		o->sym[off + i].idx = i;
	}
}
static void linTerms(E e, std::vector<std::pair<E, u128>>& t, u128& c)
{
	if (e->op == K::CONST)
		c += e->v;
	else if (e->op == K::ADD) {
		linTerms(e->a, t, c);
		linTerms(e->b, t, c);
	} else if (e->op == K::MUL && e->b->isConst())
		t.push_back({ e->a, e->b->v });
	else
		t.push_back({ e, 1 });
}
struct SymAddr {
	bool single;           // resolved to one concrete address
	u64 addr;
	E e;
	std::vector<u64> cand; // candidate addresses otherwise
};
// An address chosen by control flow: an ITE tree all of whose leaves are constants.
static bool constTree(E e, int& budget)
{
	for (;;) {
		if (--budget < 0)
			return false;
		if (e->isConst())
			return true;
		if (e->op == K::ITE) {
			if (!constTree(e->b, budget))
				return false;
			e = e->c;
			continue;
		}
		if ((e->op == K::ADD || e->op == K::MUL) && e->b->isConst()) {
			e = e->a;
			continue;
		}
		if (e->op == K::ZEXT || e->op == K::SEXT || e->op == K::EXTRACT) {
			e = e->a;
			continue;
		}
		return false;
	}
}
// Resolve a possibly symbolic address for an access of n bytes.  May fork, may report.
static SymAddr resolve(State& s, const Val& p, u64 n, bool write, size_t maxCand)
{
	SymAddr r;
	r.single = true;
	if (!p.e) {
		r.addr = p.lo;
		return r;
	}
	auto it = s.conc.find(p.e);
	if (it != s.conc.end()) {
		r.addr = it->second;
		return r;
	}
	u64 a0 = (u64)evalE(p.e, s.model);
	std::vector<std::pair<E, u128>> terms;
	u128 c0 = 0;
	linTerms(p.e, terms, c0);
	u64 base = (u64)c0 >> 32;
	for (auto& t : terms) {
		int budget = 40;
		if (t.first->op != K::CONST && constTree(t.first, budget)) {
			r.addr = concretize(s, p, 64);
			return r;
		}
	}
	if (((u64)c0 & 0xffffffffu) > 0xf0000000u)
		base += 1; // slightly negative constant offset
	const Obj* o = s.mem.get(base);
	if (!o || !o->alive) {
		r.addr = concretize(s, p, 64);
		return r;
	}
	u64 b = base << 32;
	if (o->size < n) {
		// nothing fits
		r.addr = a0;
		return r; // caller's check reports
	}
	E off = mkSub(p.e, mkConst(b, 64));
	E inb = mkUle(off, mkConst(o->size - n, 64));
	if (!inb->isConst() || !inb->v) {
		Model m;
		Sat sr = feasible(s, mkNot(inb), m);
		if (sr == Sat::YES) {
			char bb[160];
			snprintf(bb, sizeof bb, "%s of %llu bytes at offset %lld of an object of %llu bytes", write ? "write" : "read", (unsigned long long)n, (long long)(u64)evalE(off, m), (unsigned long long)o->size);
			report(s, m, "memory", bb);
		}
		Model m2;
		Sat s2 = feasible(s, inb, m2);
		if (s2 != Sat::YES)
			throw PathEnd { 2 };
		if (sr != Sat::NO)
			addPc(s, inb);
		if (!evalE(inb, s.model))
			s.model = m2;
	}
	// candidate offsets
	u64 g = 0;
	for (auto& t : terms) {
		u64 c = (u64)t.second;
		if ((i64)c < 0)
			c = -c;
		g = g ? std::__gcd(g, c) : c;
	}
	if (!g)
		g = 1;
	u64 c = ((u64)c0 - b);
	u64 first = ((c % g) + g) % g;
	if ((i64)c < 0) {
		i64 q = (i64)c % (i64)g;
		first = q < 0 ? q + g : q;
	}
	u64 lo = 0, hi = o->size - n;
	if (off->uhi < hi)
		hi = off->uhi;
	if (off->ulo > lo)
		lo = off->ulo;
	if (first < lo)
		first += (lo - first + g - 1) / g * g;
	u64 cnt = hi >= first ? (hi - first) / g + 1 : 0;
	if (cnt == 0 || cnt > maxCand) {
		r.addr = concretize(s, p, 64);
		return r;
	}
	if (cnt == 1) {
		r.addr = b + first;
		return r;
	}
	r.single = false;
	r.e = p.e;
	for (u64 i = 0; i < cnt; ++i)
		r.cand.push_back(b + first + i * g);
	return r;
}
static Val loadScalar(State& s, const Val& p, int w)
{
	u64 n = (w + 7) / 8;
	SymAddr a = resolve(s, p, n, false, w <= 64 ? 300 : 0);
	if (a.single) {
		const Obj* o = checkAccess(s, a.addr, n, false);
		if (s.th.size() > 1)
			raceCheck(s, a.addr, n, false, false);
		return loadRaw(s, o, a.addr & 0xffffffffu, w);
	}
	const Obj* o = checkAccess(s, a.cand[0], n, false);
	Val r = loadRaw(s, o, a.cand.back() & 0xffffffffu, w);
	E e = toE(r, w);
	for (int i = (int)a.cand.size() - 2; i >= 0; --i) {
		Val v = loadRaw(s, o, a.cand[i] & 0xffffffffu, w);
		e = mkIte(mkEq(a.e, mkConst(a.cand[i], 64)), toE(v, w), e);
	}
	if (s.th.size() > 1)
		for (u64 c : a.cand)
			raceCheck(s, c, n, false, false);
	return ve(e);
}
static void storeScalar(State& s, const Val& p, const Val& v, int w)
{
	u64 n = (w + 7) / 8;
	SymAddr a = resolve(s, p, n, true, w <= 64 ? 12 : 0);
	if (a.single) {
		checkAccess(s, a.addr, n, true);
		if (s.th.size() > 1)
			raceCheck(s, a.addr, n, true, false);
		storeRaw(s.mem.getW(a.addr >> 32), a.addr & 0xffffffffu, v, w);
		return;
	}
	checkAccess(s, a.cand[0], n, true);
	Obj* o = s.mem.getW(a.cand[0] >> 32);
	E nv = toE(v, w);
	for (u64 c : a.cand) {
		Val old = loadRaw(s, o, c & 0xffffffffu, w);
		E e = mkIte(mkEq(a.e, mkConst(c, 64)), nv, toE(old, w));
		storeRaw(o, c & 0xffffffffu, ve(e), w);
		if (s.th.size() > 1)
			raceCheck(s, c, n, true, false);
	}
}
static Val vadd(const Val& p, u64 k)
{
	if (!p.e)
		return vc(p.lo + k);
	return ve(mkAdd(p.e, mkConst(k, 64)));
}
static Val loadType(State& s, const Val& p, Type* t)
{
	if (int w = typeBits(t))
		return loadScalar(s, p, w);
	std::vector<Val> v;
	if (auto* st = dyn_cast<StructType>(t)) {
		const StructLayout* sl = g_dl->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); ++i)
			v.push_back(loadType(s, vadd(p, sl->getElementOffset(i)), st->getElementType(i)));
	} else if (auto* at = dyn_cast<ArrayType>(t)) {
		u64 es = g_dl->getTypeAllocSize(at->getElementType());
		for (u64 i = 0; i < at->getNumElements(); ++i)
			v.push_back(loadType(s, vadd(p, i * es), at->getElementType()));
	} else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
		int w = typeBits(vt->getElementType());
		if (w % 8)
			unsupported(s, "load of vector of odd width");
		for (u64 i = 0; i < vt->getNumElements(); ++i)
			v.push_back(loadType(s, vadd(p, i * w / 8), vt->getElementType()));
	} else
		unsupported(s, "load type");
	return mkAgg(v);
}
static void storeType(State& s, const Val& p, const Val& x, Type* t)
{
	if (int w = typeBits(t)) {
		storeScalar(s, p, x, w);
		return;
	}
	if (auto* st = dyn_cast<StructType>(t)) {
		const StructLayout* sl = g_dl->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); ++i)
			storeType(s, vadd(p, sl->getElementOffset(i)), x.agg[i], st->getElementType(i));
	} else if (auto* at = dyn_cast<ArrayType>(t)) {
		u64 es = g_dl->getTypeAllocSize(at->getElementType());
		for (u64 i = 0; i < at->getNumElements(); ++i)
			storeType(s, vadd(p, i * es), x.agg[i], at->getElementType());
	} else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
		int w = typeBits(vt->getElementType());
		if (w % 8)
			unsupported(s, "store of vector of odd width");
		for (u64 i = 0; i < vt->getNumElements(); ++i)
			storeType(s, vadd(p, i * w / 8), x.agg[i], vt->getElementType());
	} else
		unsupported(s, "store type");
}

// ------------------------------------------------------------------ race detection
static void raceCheck(State& s, u64 addr, u64 n, bool write, bool atomic)
{
	if (atomic)
		return;
	Thread& t = s.t();
	for (u64 i = 0; i < n; ++i) {
		Shadow& sh = s.shadow[addr + i];
		auto seen = [&](int tid) { auto it = t.vc.find(tid); return it == t.vc.end() ? 0 : it->second; };
		if (sh.wtid >= 0 && sh.wtid != t.id && seen(sh.wtid) < sh.wclk)
			violate(s, "race", write ? "two unordered writes to the same memory" : "read unordered with a write of the same memory");
		if (write) {
			for (auto& r : sh.reads)
				if (r.first != t.id && seen(r.first) < r.second)
					violate(s, "race", "write unordered with a read of the same memory");
			sh.wtid = t.id;
			sh.wclk = t.vc[t.id];
			sh.reads.clear();
		} else
			sh.reads[t.id] = t.vc[t.id];
	}
}
static void joinClock(VClock& a, const VClock& b)
{
	for (auto& p : b)
		if (a[p.first] < p.second)
			a[p.first] = p.second;
}

// ------------------------------------------------------------------ constants
static Val constVal(const Constant* c);
static u64 addrOfGlobal(const GlobalValue* g)
{
	if (auto* f = dyn_cast<Function>(g)) {
		auto it = g_funcs.find(f);
		if (it == g_funcs.end())
			abort();
		return it->second->addr;
	}
	if (auto* a = dyn_cast<GlobalAlias>(g)) {
		return constVal(a->getAliasee()).lo;
	}
	auto it = g_gaddr.find(cast<GlobalVariable>(g));
	if (it == g_gaddr.end())
		abort();
	return it->second;
}
static Val constVal(const Constant* c)
{
	Type* t = c->getType();
	if (auto* ci = dyn_cast<ConstantInt>(c)) {
		const APInt& a = ci->getValue();
		Val v { a.getRawData()[0], 0, nullptr, nullptr };
		if (a.getBitWidth() > 64)
			v.hi = a.getRawData()[1];
		return v;
	}
	if (auto* cf = dyn_cast<ConstantFP>(c)) {
		APInt a = cf->getValueAPF().bitcastToAPInt();
		Val v { a.getRawData()[0], 0, nullptr, nullptr };
		if (a.getBitWidth() > 64)
			v.hi = a.getRawData()[1];
		return v;
	}
	if (isa<ConstantPointerNull>(c))
		return vc(0);
	if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
		if (typeBits(t))
			return vc(0);
		std::vector<Val> v;
		if (auto* st = dyn_cast<StructType>(t))
			for (unsigned i = 0; i < st->getNumElements(); ++i)
				v.push_back(constVal(isa<UndefValue>(c) ? (Constant*)UndefValue::get(st->getElementType(i)) : Constant::getNullValue(st->getElementType(i))));
		else if (auto* at = dyn_cast<ArrayType>(t)) {
			if (at->getNumElements()) {
				Val e = constVal(Constant::getNullValue(at->getElementType()));
				v.assign(at->getNumElements(), e);
			}
		} else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
			Val e = constVal(Constant::getNullValue(vt->getElementType()));
			v.assign(vt->getNumElements(), e);
		}
		return mkAgg(v);
	}
	if (auto* g = dyn_cast<GlobalValue>(c))
		return vc(addrOfGlobal(g));
	if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
		std::vector<Val> v;
		for (unsigned i = 0; i < cd->getNumElements(); ++i)
			v.push_back(constVal(cd->getElementAsConstant(i)));
		return mkAgg(v);
	}
	if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
		std::vector<Val> v;
		for (unsigned i = 0; i < ca->getNumOperands(); ++i)
			v.push_back(constVal(ca->getOperand(i)));
		return mkAgg(v);
	}
	if (auto* ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			auto* gep = cast<GEPOperator>(ce);
			APInt off(64, 0);
			if (!gep->accumulateConstantOffset(*g_dl, off))
				abort();
			return vc(constVal(ce->getOperand(0)).lo + (u64)off.getSExtValue());
		}
		case Instruction::PtrToInt:
		case Instruction::IntToPtr:
		case Instruction::BitCast:
		case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
		case Instruction::Trunc: {
			Val v = constVal(ce->getOperand(0));
			v.lo &= (u64)maskw(typeBits(t));
			return v;
		}
		case Instruction::Sub: return vc((constVal(ce->getOperand(0)).lo - constVal(ce->getOperand(1)).lo) & (u64)maskw(typeBits(t)));
		case Instruction::Add: return vc((constVal(ce->getOperand(0)).lo + constVal(ce->getOperand(1)).lo) & (u64)maskw(typeBits(t)));
		case Instruction::ICmp: {
			u64 a = constVal(ce->getOperand(0)).lo, b = constVal(ce->getOperand(1)).lo;
			switch (ce->getPredicate()) {
			case CmpInst::ICMP_EQ: return vc(a == b);
			case CmpInst::ICMP_NE: return vc(a != b);
			case CmpInst::ICMP_ULT: return vc(a < b);
			case CmpInst::ICMP_UGT: return vc(a > b);
			default: break;
			}
			break;
		}
		default: break;
		}
		errs() << "constant expression not handled: " << *ce << "\n";
		abort();
	}
	errs() << "constant not handled: " << *c << "\n";
	abort();
}
static int constIndex(const Constant* c)
{
	auto it = g_constIdx.find(c);
	if (it != g_constIdx.end())
		return it->second;
	int i = (int)g_consts.size();
	g_consts.push_back(constVal(c));
	g_constIdx[c] = i;
	return i;
}

// ------------------------------------------------------------------ function preparation
int builtinId(const std::string& name); // below
static std::unordered_map<const Value*, int>* g_curRegs;

static FuncInfo* infoOf(const Function* f)
{
	auto it = g_funcs.find(f);
	return it == g_funcs.end() ? nullptr : it->second;
}

static int opIndex(const Value* v)
{
	if (auto* c = dyn_cast<Constant>(v))
		return -constIndex(c) - 1;
	auto it = g_curRegs->find(v);
	if (it == g_curRegs->end())
		return -constIndex(ConstantInt::get(Type::getInt64Ty(g_ctx), 0)) - 1; // metadata etc.
	return it->second;
}

static void prepare(FuncInfo* fi)
{
	if (fi->ready)
		return;
	fi->ready = true;
	Function* F = fi->F;
	std::unordered_map<const Value*, int> regs;
	g_curRegs = &regs;
	int n = 0;
	for (auto& a : F->args())
		regs[&a] = n++;
	for (auto& bb : *F)
		for (auto& I : bb)
			if (!I.getType()->isVoidTy())
				regs[&I] = n++;
	fi->nregs = n;
	int bi = 0;
	for (auto& bb : *F) {
		fi->bidx[&bb] = bi++;
	}
	for (auto& bb : *F) {
		BlockInfo b;
		b.bb = &bb;
		b.start = (int)fi->ins.size();
		b.nphi = 0;
		for (auto& I : bb) {
			if (isa<DbgInfoIntrinsic>(&I))
				continue;
			if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
				switch (ii->getIntrinsicID()) {
				case Intrinsic::lifetime_start:
				case Intrinsic::lifetime_end:
				case Intrinsic::assume:
				case Intrinsic::experimental_noalias_scope_decl:
				case Intrinsic::prefetch:
				case Intrinsic::donothing:
				case Intrinsic::dbg_declare:
				case Intrinsic::dbg_value: continue;
				default: break;
				}
			}
			Ins in;
			in.I = &I;
			in.opc = I.getOpcode();
			// a sum with a constant in free low bits, written as "or": back to a sum for the polynomial normal form
			if (auto* od = dyn_cast<PossiblyDisjointInst>(&I))
				if (od->isDisjoint() && isa<ConstantInt>(od->getOperand(1)))
					if (auto* bo = dyn_cast<BinaryOperator>(od->getOperand(0)))
						if (bo->getOpcode() == Instruction::Mul || bo->getOpcode() == Instruction::Add || bo->getOpcode() == Instruction::Sub)
							in.opc = Instruction::Add;
			in.dest = I.getType()->isVoidTy() ? -1 : regs[&I];
			in.w = typeBits(I.getType());
			in.sub = 0;
			in.vec = I.getType()->isVectorTy();
			if (auto* phi = dyn_cast<PHINode>(&I)) {
				b.nphi++;
				for (unsigned i = 0; i < phi->getNumIncomingValues(); ++i) {
					in.imm.push_back((u64)fi->bidx[phi->getIncomingBlock(i)]);
					in.ops.push_back(opIndex(phi->getIncomingValue(i)));
				}
			} else if (auto* cb = dyn_cast<CallBase>(&I)) {
				for (unsigned i = 0; i < cb->arg_size(); ++i)
					in.ops.push_back(opIndex(cb->getArgOperand(i)));
				Value* cv = cb->getCalledOperand()->stripPointerCasts();
				if (auto* al = dyn_cast<GlobalAlias>(cv))
					cv = al->getAliaseeObject();
				if (auto* f = dyn_cast<Function>(cv)) {
					in.callee = infoOf(f);
					in.ops.push_back(0);
				} else {
					in.ops.push_back(opIndex(cb->getCalledOperand()));
				}
			} else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
				in.ops.push_back(opIndex(gep->getPointerOperand()));
				u64 cst = 0;
				for (auto gti = gep_type_begin(gep), ge = gep_type_end(gep); gti != ge; ++gti) {
					Value* idx = gti.getOperand();
					if (StructType* st = gti.getStructTypeOrNull()) {
						unsigned k = (unsigned)cast<ConstantInt>(idx)->getZExtValue();
						cst += g_dl->getStructLayout(st)->getElementOffset(k);
					} else {
						u64 sz = g_dl->getTypeAllocSize(gti.getIndexedType());
						if (auto* ci = dyn_cast<ConstantInt>(idx))
							cst += sz * (u64)ci->getSExtValue();
						else {
							in.ops.push_back(opIndex(idx));
							in.imm.push_back(sz);
							in.imm.push_back((u64)typeBits(idx->getType()));
						}
					}
				}
				in.imm.push_back(cst);
			} else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
				in.ops.push_back(opIndex(sw->getCondition()));
				in.w = typeBits(sw->getCondition()->getType());
				in.imm.push_back((u64)fi->bidx[sw->getDefaultDest()]);
				for (auto& c : sw->cases()) {
					in.imm.push_back(c.getCaseValue()->getZExtValue());
					in.imm.push_back((u64)fi->bidx[c.getCaseSuccessor()]);
				}
			} else if (auto* br = dyn_cast<BranchInst>(&I)) {
				if (br->isConditional())
					in.ops.push_back(opIndex(br->getCondition()));
				for (unsigned i = 0; i < br->getNumSuccessors(); ++i)
					in.imm.push_back((u64)fi->bidx[br->getSuccessor(i)]);
			} else {
				for (unsigned i = 0; i < I.getNumOperands(); ++i)
					in.ops.push_back(opIndex(I.getOperand(i)));
				if (auto* c = dyn_cast<CmpInst>(&I)) {
					in.sub = c->getPredicate();
					in.vec = c->getOperand(0)->getType()->isVectorTy();
					Type* ot = c->getOperand(0)->getType();
					in.w = typeBits(in.vec ? cast<FixedVectorType>(ot)->getElementType() : ot);
				} else if (I.isCast()) {
					Type* ot = I.getOperand(0)->getType();
					in.sub = (unsigned)typeBits(in.vec && ot->isVectorTy() ? cast<FixedVectorType>(ot)->getElementType() : ot);
					if (in.vec)
						in.w = typeBits(cast<FixedVectorType>(I.getType())->getElementType());
				} else if (in.vec && (I.isBinaryOp() || isa<SelectInst>(&I) || in.opc == Instruction::FNeg))
					in.w = typeBits(cast<FixedVectorType>(I.getType())->getElementType());
			}
			fi->ins.push_back(in);
		}
		b.first = b.start + b.nphi;
		fi->blocks.push_back(b);
	}
	fi->hits.assign(fi->ins.size(), 0);
}

// ------------------------------------------------------------------ scalar semantics
static double asD(const Val& v) { return bits2d(v.lo); }
static long double asLD(const Val& v)
{
	long double r = 0;
	memcpy(&r, &v.lo, 8);
	memcpy((char*)&r + 8, &v.hi, 2);
	return r;
}
static Val fromLD(long double d)
{
	Val v { 0, 0, nullptr, nullptr };
	memcpy(&v.lo, &d, 8);
	memcpy(&v.hi, (char*)&d + 8, 2);
	return v;
}

static Val binop(State& s, unsigned opc, const Val& a, const Val& b, int w)
{
	if (!a.e && !b.e) {
		if (w <= 64) {
			u64 m = (u64)maskw(w), x = a.lo & m, y = b.lo & m;
			switch (opc) {
			case Instruction::Add: return vc((x + y) & m);
			case Instruction::Sub: return vc((x - y) & m);
			case Instruction::Mul: return vc((x * y) & m);
			case Instruction::And: return vc(x & y);
			case Instruction::Or: return vc(x | y);
			case Instruction::Xor: return vc(x ^ y);
			case Instruction::Shl: return vc(y >= (u64)w ? 0 : (x << y) & m);
			case Instruction::LShr: return vc(y >= (u64)w ? 0 : x >> y);
			case Instruction::AShr: {
				i64 q = (i64)sextw(x, w);
				return vc((u64)(q >> (y >= (u64)w ? w - 1 : y)) & m);
			}
			case Instruction::UDiv:
				if (!y)
					violate(s, "division", "integer division by zero");
				return vc(x / y);
			case Instruction::URem:
				if (!y)
					violate(s, "division", "integer remainder by zero");
				return vc(x % y);
			case Instruction::SDiv:
			case Instruction::SRem: {
				if (!y)
					violate(s, "division", "integer division by zero");
				i64 p = (i64)sextw(x, w), q = (i64)sextw(y, w);
				if (q == -1) {
					if (p == (i64)sextw((u128)1 << (w - 1), w))
						violate(s, "division", "signed division overflow");
					return vc(opc == Instruction::SDiv ? (0 - x) & m : 0);
				}
				return vc((u64)(opc == Instruction::SDiv ? p / q : p % q) & m);
			}
			default: break;
			}
		}
	}
	if (opc == Instruction::FAdd || opc == Instruction::FSub || opc == Instruction::FMul || opc == Instruction::FDiv || opc == Instruction::FRem) {
		if (w == 80) {
			if (a.e || b.e)
				unsupported(s, "symbolic long double");
			long double x = asLD(a), y = asLD(b);
			switch (opc) {
			case Instruction::FAdd: return fromLD(x + y);
			case Instruction::FSub: return fromLD(x - y);
			case Instruction::FMul: return fromLD(x * y);
			case Instruction::FDiv: return fromLD(x / y);
			default: return fromLD(fmodl(x, y));
			}
		}
		if (!a.e && !b.e && w == 64) {
			double x = asD(a), y = asD(b);
			switch (opc) {
			case Instruction::FAdd: return vc(d2bits(x + y));
			case Instruction::FSub: return vc(d2bits(x - y));
			case Instruction::FMul: return vc(d2bits(x * y));
			case Instruction::FDiv: return vc(d2bits(x / y));
			default: return vc(d2bits(fmod(x, y)));
			}
		}
		E x = toE(a, w), y = toE(b, w);
		K k = opc == Instruction::FAdd ? K::FADD : opc == Instruction::FSub ? K::FSUB : opc == Instruction::FMul ? K::FMUL : opc == Instruction::FDiv ? K::FDIV : K::FREM;
		return ve(mkF(k, x, y));
	}
	E x = toE(a, w), y = toE(b, w);
	switch (opc) {
	case Instruction::Add: return ve(mkAdd(x, y));
	case Instruction::Sub: return ve(mkSub(x, y));
	case Instruction::Mul: return ve(mkMul(x, y));
	case Instruction::And: return ve(mkBin(K::AND, x, y));
	case Instruction::Or: return ve(mkBin(K::OR, x, y));
	case Instruction::Xor: return ve(mkBin(K::XOR, x, y));
	case Instruction::Shl: return ve(mkBin(K::SHL, x, y));
	case Instruction::LShr: return ve(mkBin(K::LSHR, x, y));
	case Instruction::AShr: return ve(mkBin(K::ASHR, x, y));
	default: break;
	}
	// division: the divisor must not be zero
	E z = mkEq(y, mkConst(0, w));
	if (!z->isConst()) {
		Model m;
		if (known(s, z) != 0) {
			Sat r = feasible(s, z, m);
			if (r == Sat::YES)
				report(s, m, "division", "integer division by zero");
			Model m2;
			if (feasible(s, mkNot(z), m2) != Sat::YES)
				throw PathEnd { 2 };
			if (evalE(z, s.model))
				s.model = m2;
			if (r != Sat::NO)
				addPc(s, mkNot(z));
		}
	} else if (z->v)
		violate(s, "division", "integer division by zero");
	switch (opc) {
	case Instruction::UDiv: return ve(mkBin(K::UDIV, x, y));
	case Instruction::URem: return ve(mkBin(K::UREM, x, y));
	case Instruction::SDiv: return ve(mkBin(K::SDIV, x, y));
	case Instruction::SRem: return ve(mkBin(K::SREM, x, y));
	}
	unsupported(s, "binary operator");
}
static Val icmp(unsigned p, const Val& a, const Val& b, int w)
{
	if (!a.e && !b.e && w <= 64) {
		u64 m = (u64)maskw(w), x = a.lo & m, y = b.lo & m;
		i64 sx = (i64)sextw(x, w), sy = (i64)sextw(y, w);
		switch (p) {
		case CmpInst::ICMP_EQ: return vc(x == y);
		case CmpInst::ICMP_NE: return vc(x != y);
		case CmpInst::ICMP_ULT: return vc(x < y);
		case CmpInst::ICMP_ULE: return vc(x <= y);
		case CmpInst::ICMP_UGT: return vc(x > y);
		case CmpInst::ICMP_UGE: return vc(x >= y);
		case CmpInst::ICMP_SLT: return vc(sx < sy);
		case CmpInst::ICMP_SLE: return vc(sx <= sy);
		case CmpInst::ICMP_SGT: return vc(sx > sy);
		default: return vc(sx >= sy);
		}
	}
	E x = toE(a, w), y = toE(b, w);
	switch (p) {
	case CmpInst::ICMP_EQ: return ve(mkEq(x, y));
	case CmpInst::ICMP_NE: return ve(mkNot(mkEq(x, y)));
	case CmpInst::ICMP_ULT: return ve(mkUlt(x, y));
	case CmpInst::ICMP_ULE: return ve(mkUle(x, y));
	case CmpInst::ICMP_UGT: return ve(mkUlt(y, x));
	case CmpInst::ICMP_UGE: return ve(mkUle(y, x));
	case CmpInst::ICMP_SLT: return ve(mkSlt(x, y));
	case CmpInst::ICMP_SLE: return ve(mkSle(x, y));
	case CmpInst::ICMP_SGT: return ve(mkSlt(y, x));
	default: return ve(mkSle(y, x));
	}
}
static Val fcmp(State& s, unsigned p, const Val& a, const Val& b, int w)
{
	if (p == CmpInst::FCMP_TRUE)
		return vc(1);
	if (p == CmpInst::FCMP_FALSE)
		return vc(0);
	if (!a.e && !b.e) {
		long double x, y;
		if (w == 80) {
			x = asLD(a);
			y = asLD(b);
		} else if (w == 64) {
			x = asD(a);
			y = asD(b);
		} else {
			x = bits2f(a.lo);
			y = bits2f(b.lo);
		}
		bool un = x != x || y != y, r = false;
		switch (p & 7) { // lower three bits: E G L
		case 0: r = false; break;
		case 1: r = x == y; break;
		case 2: r = x > y; break;
		case 3: r = x >= y; break;
		case 4: r = x < y; break;
		case 5: r = x <= y; break;
		case 6: r = x < y || x > y; break;
		case 7: r = !un; break;
		}
		if (p & 8)
			r = r || un;
		return vc(r);
	}
	if (w == 80)
		unsupported(s, "symbolic long double");
	E x = toE(a, w), y = toE(b, w);
	E un = mkFCmp(K::FUNO, x, y), r = nullptr;
	switch (p & 7) {
	case 0: r = mkFalse(); break;
	case 1: r = mkFCmp(K::FEQ, x, y); break;
	case 2: r = mkFCmp(K::FLT, y, x); break;
	case 3: r = mkFCmp(K::FLE, y, x); break;
	case 4: r = mkFCmp(K::FLT, x, y); break;
	case 5: r = mkFCmp(K::FLE, x, y); break;
	case 6: r = mkAnd(mkNot(un), mkNot(mkFCmp(K::FEQ, x, y))); break;
	case 7: r = mkNot(un); break;
	}
	if (p & 8)
		r = mkOr(r, un);
	return ve(r);
}
static Val castop(State& s, unsigned opc, const Val& a, int from, int to)
{
	if (from == 80 || to == 80) {
		if (a.e)
			unsupported(s, "symbolic long double");
		switch (opc) {
		case Instruction::FPExt: return fromLD(from == 32 ? (long double)bits2f(a.lo) : (long double)asD(a));
		case Instruction::FPTrunc: return to == 64 ? vc(d2bits((double)asLD(a))) : vc(f2bits((float)asLD(a)));
		case Instruction::SIToFP: return fromLD((long double)(i64)sextw(a.lo, from));
		case Instruction::UIToFP: return fromLD((long double)a.lo);
		case Instruction::FPToSI: return vc((u64)(i64)asLD(a) & (u64)maskw(to));
		case Instruction::FPToUI: return vc((u64)asLD(a) & (u64)maskw(to));
		default: return a;
		}
	}
	if (!a.e && from <= 64 && to <= 64) {
		switch (opc) {
		case Instruction::Trunc: return vc(a.lo & (u64)maskw(to));
		case Instruction::ZExt: return vc(a.lo & (u64)maskw(from));
		case Instruction::SExt: return vc((u64)sextw(a.lo, from) & (u64)maskw(to));
		default: break;
		}
	}
	E e = toE(a, from);
	switch (opc) {
	case Instruction::Trunc: return ve(mkExtract(e, 0, to));
	case Instruction::ZExt: return ve(mkZext(e, to));
	case Instruction::SExt: return ve(mkSext(e, to));
	case Instruction::PtrToInt:
	case Instruction::IntToPtr:
		if (to < from)
			return ve(mkExtract(e, 0, to));
		if (to > from)
			return ve(mkZext(e, to));
		return a;
	case Instruction::BitCast: return a;
	case Instruction::FPExt:
	case Instruction::FPTrunc: return ve(mkFPCvt(e, to));
	case Instruction::SIToFP: return ve(mkSIToFP(e, to, true));
	case Instruction::UIToFP: return ve(mkSIToFP(e, to, false));
	case Instruction::FPToSI: return ve(mkFPToI(e, to, true));
	case Instruction::FPToUI: return ve(mkFPToI(e, to, false));
	}
	unsupported(s, "cast");
}

// ------------------------------------------------------------------ control
static inline const Val& getv(Frame* f, int i) { return i >= 0 ? f->regs[i] : g_consts[-i - 1]; }
static void advance(State& s, int dest, const Val& v)
{
	Frame* f = s.wtop();
	if (dest >= 0)
		f->regs[dest] = v;
	++f->pc;
}
static void jump(State& s, int to)
{
	Frame* f = s.wtop();
	FuncInfo* fi = f->f;
	int from = f->block;
	BlockInfo& b = fi->blocks[to];
	if (b.nphi) {
		Val tmp[64];
		std::vector<Val> big;
		Val* t = tmp;
		if (b.nphi > 64) {
			big.resize(b.nphi);
			t = big.data();
		}
		for (int i = 0; i < b.nphi; ++i) {
			Ins& in = fi->ins[b.start + i];
			size_t k = 0;
			while (k < in.imm.size() && (int)in.imm[k] != from)
				++k;
			t[i] = getv(f, in.ops[k]);
		}
		for (int i = 0; i < b.nphi; ++i)
			f->regs[fi->ins[b.start + i].dest] = t[i];
	}
	f->prev = from;
	f->block = to;
	f->pc = b.first;
}
static void pushFrame(State& s, FuncInfo* fi, const std::vector<Val>& args)
{
	prepare(fi);
	fi->executed = true;
	if (s.t().st.size() > 3000)
		violate(s, "hang", "call depth beyond 3000 frames");
	Frame* f = new Frame;
	f->f = fi;
	f->block = 0;
	f->prev = -1;
	f->pc = fi->blocks[0].first;
	f->regs.assign(fi->nregs, Val { 0, 0, nullptr, nullptr });
	size_t n = fi->F->arg_size();
	for (size_t i = 0; i < args.size(); ++i)
		if (i < n)
			f->regs[i] = args[i];
		else
			f->varargs.push_back(args[i]);
	s.t().st.push_back(f);
}
static void popFrame(State& s)
{
	auto& st = s.t().st;
	Frame* f = st.back();
	for (u64 a : f->allocas)
		s.mem.forget(a >> 32);
	st.pop_back();
	if (--f->rc == 0)
		delete f;
}
static void afterCall(State& s, const Val& v)
{ // the callee has returned to the frame on top
	Frame* f = s.wtop();
	Ins& in = f->f->ins[f->pc];
	if (in.dest >= 0)
		f->regs[in.dest] = v;
	if (in.opc == Instruction::Invoke)
		jump(s, f->f->bidx[cast<InvokeInst>(in.I)->getNormalDest()]);
	else
		++f->pc;
}

// ------------------------------------------------------------------ exceptions
static u64 symAddr(const char* n)
{
	if (auto* g = g_mod->getNamedValue(n))
		return addrOfGlobal(g);
	return 0;
}
static u64 rd64(State& s, u64 a)
{
	const Obj* o = s.mem.get(a >> 32);
	u64 off = a & 0xffffffffu;
	if (!o || off + 8 > o->size)
		return 0;
	u64 r;
	memcpy(&r, o->data + off, 8);
	return r;
}
static int tiKind(State& s, u64 ti)
{ // 0 none/fundamental, 1 class, 2 si, 3 vmi, 4 pointer
	static u64 vClass = symAddr("_ZTVN10__cxxabiv117__class_type_infoE"), vSi = symAddr("_ZTVN10__cxxabiv120__si_class_type_infoE"), vVmi = symAddr("_ZTVN10__cxxabiv121__vmi_class_type_infoE"), vPtr = symAddr("_ZTVN10__cxxabiv119__pointer_type_infoE");
	u64 v = rd64(s, ti);
	if (!v)
		return 0;
	if (vClass && v == vClass + 16)
		return 1;
	if (vSi && v == vSi + 16)
		return 2;
	if (vVmi && v == vVmi + 16)
		return 3;
	if (vPtr && v == vPtr + 16)
		return 4;
	return 0;
}
static std::map<u64, std::string> g_globalNames;
static bool tiDerives(State& s, u64 thrown, u64 caught, u64& adj, int depth = 0)
{
	if (thrown == caught)
		return true;
	if (depth > 12)
		return false;
	switch (tiKind(s, thrown)) {
	case 2: return tiDerives(s, rd64(s, thrown + 16), caught, adj, depth + 1);
	case 3: {
		u64 fl = rd64(s, thrown + 16);
		u64 n = fl >> 32;
		for (u64 i = 0; i < n; ++i) {
			u64 b = rd64(s, thrown + 24 + 16 * i), of = rd64(s, thrown + 32 + 16 * i);
			u64 a2 = adj + (u64)((i64)of >> 8);
			if ((of & 2) && tiDerives(s, b, caught, a2, depth + 1)) {
				adj = a2;
				return true;
			}
		}
		return false;
	}
	}
	return false;
}
static int typeIdOf(u64 ti)
{
	for (size_t i = 0; i < g_typeids.size(); ++i)
		if (g_typeids[i] == ti)
			return (int)i + 1;
	g_typeids.push_back(ti);
	return (int)g_typeids.size();
}
static std::string excText(State& s, u64 obj, u64 ti)
{
	std::string r = g_globalNames.count(ti) ? demangle(g_globalNames[ti]) : "?";
	return r;
}
// selector for a landing pad, -1 when it does not want the exception
static int lpSelector(State& s, LandingPadInst* lp, u64 obj, u64 ti)
{
	for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
		if (lp->isCatch(i)) {
			Constant* c = lp->getClause(i);
			if (c->isNullValue())
				return typeIdOf(0);
			u64 t = constVal(c).lo, adj = 0;
			if (tiDerives(s, ti, t, adj))
				return typeIdOf(t);
		}
	}
	return lp->isCleanup() ? 0 : -1;
}
static void unwind(State& s, u64 obj, u64 ti)
{
	Thread& t = s.t();
	// phase 1: is there a handler at all?
	bool handler = false;
	for (int i = (int)t.st.size() - 1; i >= 0 && !handler; --i) {
		Frame* f = t.st[i];
		Ins& in = f->f->ins[f->pc];
		if (in.opc == Instruction::Invoke) {
			auto* lp = cast<InvokeInst>(in.I)->getLandingPadInst();
			int sel = lpSelector(s, lp, obj, ti);
			if (sel > 0)
				handler = true;
		}
	}
	if (!handler)
		violate(s, "exception", "uncaught exception of type " + excText(s, obj, ti));
	t.excObj = obj;
	t.excType = ti;
	for (;;) {
		Frame* f = s.wtop();
		Ins& in = f->f->ins[f->pc];
		if (in.opc == Instruction::Invoke) {
			auto* ii = cast<InvokeInst>(in.I);
			if (lpSelector(s, ii->getLandingPadInst(), obj, ti) >= 0) {
				jump(s, f->f->bidx[ii->getUnwindDest()]);
				return;
			}
		}
		popFrame(s);
	}
}

// ------------------------------------------------------------------ builtins
enum BI {
	B_NONE = -1,
	B_IN = 0, B_INS, B_CHOOSE, B_ASSUME, B_ASSERT, B_COVER, B_OBSERVE, B_OBSERVEF, B_CONCRETE, B_ABORTOK, B_ISSYM, B_STOP, B_TRACE,
	B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWARR, B_DELETE, B_DELETEARR, B_ALIGNEDNEW,
	B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_MEMCHRFAST,
	B_ABORT, B_ASSERTFAIL, B_LIBASSERT, B_TERMINATE, B_EXIT, B_PUREVIRTUAL,
	B_ALLOCEXC, B_FREEEXC, B_THROW, B_BEGINCATCH, B_ENDCATCH, B_RETHROW, B_GETEXCPTR, B_RESUME,
	B_GUARDACQ, B_GUARDREL, B_GUARDABORT, B_ATEXIT,
	B_ERRNO, B_FMTD, B_STRTOD, B_VSNPRINTF, B_SNPRINTF, B_RETZERO, B_TIME, B_UNCAUGHT,
	B_PTCREATE, B_PTJOIN, B_PTMUTEXLOCK, B_PTMUTEXUNLOCK, B_PTMUTEXTRY, B_PTSELF, B_PTCONDWAIT, B_PTCONDSIGNAL, B_PTCONDBROAD, B_PTEXIT, B_PTYIELD,
	B_PTMUTEXINIT, B_NPROC, B_LROUND, B_DYNCAST, B_ABSINT, B_LDEXP, B_FREXP, B_MODF, B_NEXTAFTER, B_SINCOS, B_PUTS,
	B_FMIN, B_FMAX, B_COPYSIGN, B_FABS, B_SQRT, B_FLOOR, B_CEIL, B_TRUNC, B_RINT, B_ROUND, B_MATHFUN, B_MATHFUNF, B_STOPTHREADS, B_ISNAN, B_LOGL
};
static const std::map<std::string, int>& builtinTable()
{
	static std::map<std::string, int> m = {
		{ "psx_in", B_IN }, { "psx_in_s", B_INS }, { "psx_choose", B_CHOOSE }, { "psx_assume_", B_ASSUME }, { "psx_assert_", B_ASSERT }, { "psx_cover", B_COVER }, { "psx_observe", B_OBSERVE }, { "psx_observe_f", B_OBSERVEF }, { "psx_concrete", B_CONCRETE }, { "psx_abort_ok", B_ABORTOK }, { "psx_is_symbolic", B_ISSYM }, { "psx_stop", B_STOP }, { "psx_trace", B_TRACE },
		{ "malloc", B_MALLOC }, { "calloc", B_CALLOC }, { "realloc", B_REALLOC }, { "free", B_FREE }, { "_Znwm", B_NEW }, { "_Znam", B_NEWARR }, { "_ZnwmRKSt9nothrow_t", B_NEW }, { "_ZnamRKSt9nothrow_t", B_NEWARR }, { "_ZdlPv", B_DELETE }, { "_ZdlPvm", B_DELETE }, { "_ZdaPv", B_DELETEARR }, { "_ZdaPvm", B_DELETEARR }, { "_ZdlPvRKSt9nothrow_t", B_DELETE },
		{ "memcpy", B_MEMCPY }, { "memmove", B_MEMMOVE }, { "memset", B_MEMSET }, { "memcmp", B_MEMCMP }, { "bcmp", B_MEMCMP }, { "psx_memchr_fast", B_MEMCHRFAST },
		{ "abort", B_ABORT }, { "__assert_fail", B_ASSERTFAIL }, { "_ZSt21__glibcxx_assert_failPKciS0_S0_", B_LIBASSERT }, { "_ZSt9terminatev", B_TERMINATE }, { "exit", B_EXIT }, { "_exit", B_EXIT }, { "__cxa_pure_virtual", B_PUREVIRTUAL },
		{ "__cxa_allocate_exception", B_ALLOCEXC }, { "__cxa_free_exception", B_FREEEXC }, { "__cxa_throw", B_THROW }, { "__cxa_begin_catch", B_BEGINCATCH }, { "__cxa_end_catch", B_ENDCATCH }, { "__cxa_rethrow", B_RETHROW }, { "__cxa_get_exception_ptr", B_GETEXCPTR }, { "_Unwind_Resume", B_RESUME }, { "_ZSt18uncaught_exceptionv", B_UNCAUGHT }, { "_ZSt19uncaught_exceptionsv", B_UNCAUGHT },
		{ "__cxa_guard_acquire", B_GUARDACQ }, { "__cxa_guard_release", B_GUARDREL }, { "__cxa_guard_abort", B_GUARDABORT }, { "__cxa_atexit", B_ATEXIT }, { "atexit", B_ATEXIT },
		{ "__errno_location", B_ERRNO }, { "psx_fmt_double", B_FMTD }, { "psx_parse_double", B_STRTOD }, { "vsnprintf", B_VSNPRINTF }, { "snprintf", B_SNPRINTF }, { "sprintf", B_SNPRINTF }, { "printf", B_RETZERO }, { "fprintf", B_RETZERO }, { "puts", B_RETZERO }, { "putchar", B_RETZERO }, { "fflush", B_RETZERO }, { "fwrite", B_RETZERO }, { "fputs", B_RETZERO }, { "fputc", B_RETZERO }, { "perror", B_RETZERO },
		{ "time", B_TIME }, { "gettimeofday", B_RETZERO }, { "getrusage", B_RETZERO }, { "signal", B_RETZERO },
		{ "pthread_create", B_PTCREATE }, { "pthread_join", B_PTJOIN }, { "pthread_mutex_lock", B_PTMUTEXLOCK }, { "pthread_mutex_unlock", B_PTMUTEXUNLOCK }, { "pthread_mutex_trylock", B_PTMUTEXTRY }, { "pthread_self", B_PTSELF }, { "pthread_cond_wait", B_PTCONDWAIT }, { "pthread_cond_signal", B_PTCONDSIGNAL }, { "pthread_cond_broadcast", B_PTCONDBROAD }, { "pthread_exit", B_PTEXIT }, { "sched_yield", B_PTYIELD }, { "psx_yield", B_PTYIELD },
		{ "pthread_mutex_init", B_PTMUTEXINIT }, { "pthread_mutex_destroy", B_RETZERO }, { "pthread_cond_init", B_RETZERO }, { "pthread_cond_destroy", B_RETZERO }, { "pthread_attr_init", B_RETZERO }, { "pthread_attr_destroy", B_RETZERO }, { "pthread_attr_setstacksize", B_RETZERO }, { "pthread_attr_setaffinity_np", B_RETZERO }, { "pthread_setaffinity_np", B_RETZERO }, { "pthread_attr_setdetachstate", B_RETZERO }, { "sysconf", B_NPROC }, { "sched_setaffinity", B_RETZERO }, { "sched_getaffinity", B_RETZERO }, { "sched_getcpu", B_RETZERO }, { "pthread_mutexattr_init", B_RETZERO }, { "pthread_mutexattr_settype", B_RETZERO }, { "pthread_mutexattr_destroy", B_RETZERO },
		{ "fmin", B_FMIN }, { "fmax", B_FMAX }, { "fabs", B_FABS }, { "fabsf", B_FABS }, { "sqrt", B_SQRT }, { "sqrtf", B_SQRT }, { "floor", B_FLOOR }, { "ceil", B_CEIL }, { "trunc", B_TRUNC }, { "rint", B_RINT }, { "nearbyint", B_RINT }, { "round", B_ROUND }, { "copysign", B_COPYSIGN }, { "lround", B_LROUND }, { "ldexp", B_LDEXP }, { "frexp", B_FREXP }, { "modf", B_MODF }, { "__dynamic_cast", B_DYNCAST }, { "nextafter", B_NEXTAFTER }, { "sincos", B_SINCOS },
	};
	return m;
}
int builtinId(const std::string& n)
{
	auto& m = builtinTable();
	auto it = m.find(n);
	if (it != m.end())
		return it->second;
	int na;
	if (funCode(n, na) >= 0)
		return B_MATHFUN;
	if (n.size() > 1 && n.back() == 'f' && funCode(n.substr(0, n.size() - 1), na) >= 0)
		return B_MATHFUNF;
	return B_NONE;
}

static std::string cstr(State& s, const Val& p)
{
	std::string r;
	u64 a = concretize(s, p, 64);
	for (int i = 0; i < 4096; ++i) {
		const Obj* o = s.mem.get((a + i) >> 32);
		u64 off = (a + i) & 0xffffffffu;
		if (!o || !o->alive || off >= o->size)
			break;
		if (o->sym && o->sym[off].e) {
			r += '?';
			continue;
		}
		if (!o->data[off])
			break;
		r += (char)o->data[off];
	}
	return r;
}
// a C string whose symbolic bytes are enumerated
static std::string cstrConc(State& s, const Val& p)
{
	std::string r;
	u64 a = concretize(s, p, 64);
	for (;; ++a) {
		Val c = loadScalar(s, vc(a), 8);
		u64 x = concretize(s, c, 8);
		if (!x)
			return r;
		r += (char)x;
		if (r.size() > 100000)
			violate(s, "hang", "unterminated string");
	}
}
static void copyBytes(State& s, u64 d, u64 src, u64 n)
{
	if (!n)
		return;
	const Obj* so = checkAccess(s, src, n, false);
	checkAccess(s, d, n, true);
	if (s.th.size() > 1) {
		raceCheck(s, src, n, false, false);
		raceCheck(s, d, n, true, false);
	}
	u64 sof = src & 0xffffffffu, dof = d & 0xffffffffu;
	Obj* o = s.mem.getW(d >> 32);
	so = s.mem.get(src >> 32);
	bool sy = so->sym && so->rangeSym(sof, n);
	if (sy || o->sym) {
		std::vector<SymB> tmp(n, SymB { nullptr, 0 });
		if (so->sym)
			for (u64 i = 0; i < n; ++i)
				tmp[i] = so->sym[sof + i];
		if (sy)
			o->needSym();
		if (o->sym)
			for (u64 i = 0; i < n; ++i)
				o->sym[dof + i] = tmp[i];
	}
	memmove(o->data + dof, so->data + sof, n);
}
static u64 newObj(State& s, u64 n, ObjKind k, uint8_t fill)
{
	u64 a = s.mem.alloc(n, k, fill);
	return a;
}
static void writeBytes(State& s, u64 d, const void* p, u64 n)
{
	checkAccess(s, d, n, true);
	Obj* o = s.mem.getW(d >> 32);
	u64 off = d & 0xffffffffu;
	memcpy(o->data + off, p, n);
	if (o->sym)
		for (u64 i = 0; i < n; ++i)
			o->sym[off + i].e = nullptr;
}
static void freeObj(State& s, u64 a, int kind)
{
	if (!a)
		return;
	const Obj* o = s.mem.get(a >> 32);
	if (!o || (a & 0xffffffffu) || o->kind == OK_GLOBAL || o->kind == OK_STACK)
		violate(s, "memory", "free of a pointer that is not the start of an allocation");
	if (!o->alive)
		violate(s, "memory", "double free");
	if (kind != o->kind)
		violate(s, "memory", "allocation and deallocation functions do not match");
	if (s.th.size() > 1 && o->size)
		raceCheck(s, a, o->size, true, false);
	s.mem.kill(a >> 32);
}

// ---- threads
static bool runnable(State& s, int i)
{
	Thread& t = s.th[i];
	switch (t.status) {
	case Thread::RUN: return true;
	case Thread::DONE: return false;
	case Thread::BLOCK_MUTEX: {
		auto it = s.mutexes.find(t.waitOn);
		return it == s.mutexes.end() || it->second.first < 0;
	}
	case Thread::BLOCK_JOIN: return s.th[t.waitOn].status == Thread::DONE;
	case Thread::BLOCK_COND: return false;
	}
	return false;
}
// Choose who runs next; forks over every runnable thread.  Returns with s.cur set.
static void schedule(State& s)
{
	std::vector<int> r;
	for (int i = 0; i < (int)s.th.size(); ++i)
		if (runnable(s, i))
			r.push_back(i);
	if (r.empty())
		violate(s, "deadlock", "no thread can make progress");
	if (r.size() > 1) {
		for (size_t k = 1; k < r.size(); ++k) {
			State* o = cloneState(s);
			o->cur = r[k];
			o->th[r[k]].status = Thread::RUN;
			o->misc["granted"] = r[k] + 1;
			o->sched.push_back(r[k]);
			pushWork(o);
			++g_schedules;
		}
		s.sched.push_back(r[0]);
	}
	s.cur = r[0];
	s.th[r[0]].status = Thread::RUN;
	s.misc["granted"] = r[0] + 1;
}
// Called at the beginning of a synchronisation operation.
static void syncPoint(State& s)
{
	if (s.th.size() <= 1)
		return;
	if (s.misc["granted"] == (u64)s.cur + 1) {
		s.misc["granted"] = 0;
		return;
	}
	schedule(s);
	throw Reexec();
}
static void block(State& s, int why, u64 on)
{
	s.t().status = (decltype(s.t().status))why;
	s.t().waitOn = on;
	schedule(s);
	throw Reexec();
}
static void tick(State& s) { s.t().vc[s.t().id]++; }

static void callFunction(State& s, FuncInfo* fi, std::vector<Val>& args, CallBase* cb, int handlerArgOffset = 0);

// Executes a builtin.  Returns true and sets `ret` when the call is complete.
static bool builtin(State& s, int h, FuncInfo* fi, std::vector<Val>& a, CallBase* cb, Val& ret);

static Val mathUn(State& s, int h, const Val& a, int w)
{
	if (!a.e && w == 64) {
		double x = asD(a);
		switch (h) {
		case B_FABS: return vc(d2bits(fabs(x)));
		case B_SQRT: return vc(d2bits(sqrt(x)));
		case B_FLOOR: return vc(d2bits(floor(x)));
		case B_CEIL: return vc(d2bits(ceil(x)));
		case B_TRUNC: return vc(d2bits(trunc(x)));
		case B_RINT: return vc(d2bits(rint(x)));
		case B_ROUND: return vc(d2bits(round(x)));
		}
	}
	if (w == 80) {
		if (a.e)
			unsupported(s, "symbolic long double");
		long double x = asLD(a);
		switch (h) {
		case B_FABS: return fromLD(fabsl(x));
		case B_SQRT: return fromLD(sqrtl(x));
		case B_FLOOR: return fromLD(floorl(x));
		case B_CEIL: return fromLD(ceill(x));
		case B_TRUNC: return fromLD(truncl(x));
		default: return fromLD(roundl(x));
		}
	}
	E e = toE(a, w);
	switch (h) {
	case B_FABS: return ve(mkFAbs(e));
	case B_SQRT: return ve(mkFSqrt(e));
	case B_FLOOR: return ve(mkFRound(e, 0));
	case B_CEIL: return ve(mkFRound(e, 1));
	case B_TRUNC: return ve(mkFRound(e, 2));
	case B_RINT: return ve(mkFRound(e, 3));
	default: return ve(mkFRound(e, 4));
	}
}
static Val mathMinMax(State& s, bool mn, const Val& a, const Val& b, int w)
{
	Val lt = fcmp(s, CmpInst::FCMP_OLT, mn ? a : b, mn ? b : a, w);
	Val bn = fcmp(s, CmpInst::FCMP_UNO, b, b, w);
	if (!lt.e && !bn.e)
		return (lt.lo || bn.lo) ? a : b;
	E c = mkOr(toE(lt, 1), toE(bn, 1));
	return ve(mkIte(c, toE(a, w), toE(b, w)));
}

static std::string hostFormat(State& s, const std::string& f, const std::function<Val(bool fp)>& next)
{
	std::string out;
	for (size_t i = 0; i < f.size(); ++i) {
		if (f[i] != '%') {
			out += f[i];
			continue;
		}
		size_t j = i + 1;
		std::string spec = "%";
		while (j < f.size() && strchr("-+ #0123456789.*", f[j])) {
			if (f[j] == '*')
				spec += std::to_string((int)concretize(s, next(false), 32));
			else
				spec += f[j];
			++j;
		}
		while (j < f.size() && strchr("hlzjtLq", f[j]))
			++j;
		char c = j < f.size() ? f[j] : '%';
		char buf[512];
		switch (c) {
		case 'd':
		case 'i': {
			bool l = f.find('l', i) < j || f.find('z', i) < j;
			u64 x = concretize(s, next(false), 64);
			snprintf(buf, sizeof buf, (spec + "lld").c_str(), l ? (long long)x : (long long)(int32_t)x);
			out += buf;
			break;
		}
		case 'u':
		case 'x':
		case 'X':
		case 'o': {
			bool l = f.find('l', i) < j || f.find('z', i) < j;
			u64 x = concretize(s, next(false), 64);
			snprintf(buf, sizeof buf, (spec + "ll" + c).c_str(), l ? (unsigned long long)x : (unsigned long long)(uint32_t)x);
			out += buf;
			break;
		}
		case 'c': out += (char)concretize(s, next(false), 8); break;
		case 's': out += cstrConc(s, next(false)); break;
		case 'f':
		case 'e':
		case 'g':
		case 'E':
		case 'G': {
			u64 x = concretize(s, next(true), 64);
			snprintf(buf, sizeof buf, (spec + c).c_str(), bits2d(x));
			out += buf;
			break;
		}
		case '%': out += '%'; break;
		default: unsupported(s, "format " + f);
		}
		i = j;
	}
	return out;
}

static void doAssert(State& s, const Val& c, const std::string& msg)
{
	++g_assertsChecked;
	if (!c.e) {
		if (!c.lo)
			violate(s, "assert", msg);
		return;
	}
	++g_assertsSymbolic;
	E e = c.e->w == 1 ? c.e : mkNot(mkEq(c.e, mkConst(0, c.e->w)));
	Model m;
	Sat r = feasible(s, mkNot(e), m);
	if (r == Sat::YES) {
		report(s, m, "assert", msg);
		Model m2;
		if (feasible(s, e, m2) != Sat::YES)
			throw PathEnd { 2 };
		if (!evalE(e, s.model))
			s.model = m2;
		addPc(s, e);
	}
	// when NO, the assertion is implied and adds nothing
}

static int bitsFor(u64 hi)
{
	int n = 1;
	while (n < 64 && (hi >> n))
		++n;
	return n;
}

static bool builtin(State& s, int h, FuncInfo* fi, std::vector<Val>& a, CallBase* cb, Val& ret)
{
	ret = vc(0);
	switch (h) {
	case B_IN: { // name, bits, lo, hi
		u64 bits = a[1].lo, lo = a[2].lo, hi = a[3].lo;
		size_t k = s.inputs.size();
		if (g_useFixed) {
			u64 x = k < g_fixedInputs.size() ? g_fixedInputs[k] : lo;
			s.inputs.push_back({ nullptr, x });
			ret = vc(x);
			return true;
		}
		if (lo == hi) {
			s.inputs.push_back({ nullptr, lo });
			ret = vc(lo);
			return true;
		}
		int w = std::min<int>((int)bits, bitsFor(hi));
		E v = mkVar("in" + std::to_string(k), w, lo, hi);
		if ((uint32_t)v->v >= s.model.val.size() || s.model.get((uint32_t)v->v) < lo || s.model.get((uint32_t)v->v) > hi)
			s.model.set((uint32_t)v->v, lo);
		E x = mkZext(v, 64);
		s.inputs.push_back({ x, 0 });
		ret = ve(x);
		return true;
	}
	case B_INS: { // name, lo, hi (signed)
		i64 lo = (i64)a[1].lo, hi = (i64)a[2].lo;
		size_t k = s.inputs.size();
		if (g_useFixed) {
			u64 x = k < g_fixedInputs.size() ? g_fixedInputs[k] : (u64)lo;
			s.inputs.push_back({ nullptr, x });
			ret = vc(x);
			return true;
		}
		if (lo == hi) {
			s.inputs.push_back({ nullptr, (u64)lo });
			ret = vc((u64)lo);
			return true;
		}
		int w = 1;
		while (w < 64 && !(lo >= -((i64)1 << (w - 1)) && hi < ((i64)1 << (w - 1))))
			++w;
		E v = mkVar("in" + std::to_string(k), w, 0, (u64)maskw(w), true, lo, hi);
		i64 cur = (i64)sextw(s.model.get((uint32_t)v->v), w);
		if ((uint32_t)v->v >= s.model.val.size() || cur < lo || cur > hi)
			s.model.set((uint32_t)v->v, (u128)(i128)lo & maskw(w));
		E x = mkSext(v, 64);
		s.inputs.push_back({ x, 0 });
		ret = ve(x);
		return true;
	}
	case B_CHOOSE: { // name, n
		u64 n = concretize(s, a[1], 64);
		size_t k = s.inputs.size();
		if (g_useFixed) {
			u64 x = k < g_fixedInputs.size() ? g_fixedInputs[k] : 0;
			s.inputs.push_back({ nullptr, x });
			ret = vc(x);
			return true;
		}
		if (n == 0)
			throw PathEnd { 1 };
		for (u64 i = n - 1; i >= 1; --i) {
			State* o = cloneState(s);
			o->inputs.push_back({ nullptr, i });
			afterCall(*o, vc(i));
			pushWork(o);
		}
		s.inputs.push_back({ nullptr, 0 });
		ret = vc(0);
		return true;
	}
	case B_ASSUME: {
		const Val& c = a[0];
		if (!c.e) {
			if (!c.lo)
				throw PathEnd { 1 };
			return true;
		}
		E e = c.e->w == 1 ? c.e : mkNot(mkEq(c.e, mkConst(0, c.e->w)));
		if (e->isConst()) {
			if (!e->v)
				throw PathEnd { 1 };
			return true;
		}
		if (!evalE(e, s.model)) {
			Model m;
			if (feasible(s, e, m) != Sat::YES)
				throw PathEnd { 1 };
			s.model = m;
		}
		addPc(s, e);
		return true;
	}
	case B_ASSERT: doAssert(s, a[0], cstr(s, a[1])); return true;
	case B_COVER: g_covers[cstr(s, a[0])]++; return true;
	case B_OBSERVE:
	case B_OBSERVEF: s.obs.push_back({ a[0], 64, h == B_OBSERVEF }); return true;
	case B_CONCRETE: ret = vc(concretize(s, a[0], 64)); return true;
	case B_ABORTOK: s.abortOk = a[0].lo != 0; return true;
	case B_ISSYM: ret = vc(a[0].e != nullptr); return true;
	case B_STOP: throw PathEnd { 0 };
	case B_TRACE: {
		if (!g_verbose)
			return true;
		std::string t = cstr(s, a[0]);
		fprintf(stderr, "trace %s %s\n", t.c_str(), a[1].e ? toStr(a[1].e).c_str() : std::to_string(a[1].lo).c_str());
		return true;
	}
	case B_MALLOC:
	case B_NEW:
	case B_NEWARR: {
		u64 n = concretize(s, a[0], 64);
		if (n > (1ull << 28)) {
			if (h == B_MALLOC)
				return true;
			if (Function* f = g_mod->getFunction("psx_rt_bad_alloc")) {
				std::vector<Val> none;
				pushFrame(s, infoOf(f), none);
				return false;
			}
			unsupported(s, "huge allocation");
		}
		ret = vc(newObj(s, n, h == B_MALLOC ? OK_MALLOC : h == B_NEW ? OK_NEW : OK_NEWARR, 0xFE));
		return true;
	}
	case B_CALLOC: {
		u64 n = concretize(s, a[0], 64) * concretize(s, a[1], 64);
		ret = vc(newObj(s, n, OK_MALLOC, 0));
		return true;
	}
	case B_REALLOC: {
		u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64);
		u64 q = newObj(s, n, OK_MALLOC, 0xFE);
		if (p) {
			const Obj* o = checkAccess(s, p, 0, false);
			copyBytes(s, q, p, std::min(n, o->size));
			freeObj(s, p, OK_MALLOC);
		}
		ret = vc(q);
		return true;
	}
	case B_FREE: freeObj(s, concretize(s, a[0], 64), OK_MALLOC); return true;
	case B_DELETE: freeObj(s, concretize(s, a[0], 64), OK_NEW); return true;
	case B_DELETEARR: freeObj(s, concretize(s, a[0], 64), OK_NEWARR); return true;
	case B_MEMCPY:
	case B_MEMMOVE: {
		u64 n = concretize(s, a[2], 64);
		u64 d = concretize(s, a[0], 64), src = concretize(s, a[1], 64);
		copyBytes(s, d, src, n);
		ret = vc(d);
		return true;
	}
	case B_MEMSET: {
		u64 n = concretize(s, a[2], 64);
		u64 d = concretize(s, a[0], 64);
		ret = vc(d);
		if (!n)
			return true;
		checkAccess(s, d, n, true);
		if (s.th.size() > 1)
			raceCheck(s, d, n, true, false);
		Obj* o = s.mem.getW(d >> 32);
		u64 off = d & 0xffffffffu;
		if (!a[1].e) {
			memset(o->data + off, (int)(a[1].lo & 255), n);
			if (o->sym)
				for (u64 i = 0; i < n; ++i)
					o->sym[off + i].e = nullptr;
		} else {
			E b = mkExtract(a[1].e, 0, 8);
			for (u64 i = 0; i < n; ++i)
				storeRaw(o, off + i, ve(b), 8);
		}
		return true;
	}
	case B_MEMCMP: {
		u64 n = concretize(s, a[2], 64);
		if (!n)
			return true;
		u64 p = concretize(s, a[0], 64), q = concretize(s, a[1], 64);
		const Obj* x = checkAccess(s, p, n, false);
		const Obj* y = checkAccess(s, q, n, false);
		if (s.th.size() > 1) {
			raceCheck(s, p, n, false, false);
			raceCheck(s, q, n, false, false);
		}
		u64 xo = p & 0xffffffffu, yo = q & 0xffffffffu;
		E r = mkConst(0, 32);
		for (i64 i = (i64)n - 1; i >= 0; --i) {
			E c = byteE(x, xo + i), d = byteE(y, yo + i);
			E eq = mkEq(c, d);
			if (eq->isConst()) {
				if (!eq->v)
					r = mkIte(mkUlt(c, d), mkConst(~(u128)0, 32), mkConst(1, 32));
				continue;
			}
			r = mkIte(eq, r, mkIte(mkUlt(c, d), mkConst(~(u128)0, 32), mkConst(1, 32)));
		}
		ret = ve(r);
		return true;
	}
	case B_MEMCHRFAST: { // a search for a symbolic character in constant text, without forking
		E ch = a[1].e;
		if (!ch || a[0].e || a[2].e || a[2].lo == 0 || a[2].lo > 300) {
			ret = vc(~(u64)0);
			return true;
		}
		u64 n = a[2].lo, p = a[0].lo, off = p & 0xffffffffu;
		const Obj* x = checkAccess(s, p, n, false);
		if (x->rangeSym(off, n)) {
			ret = vc(~(u64)0);
			return true;
		}
		E c8 = mkExtract(ch, 0, 8);
		E r = mkConst(0, 64);
		for (i64 i = (i64)n - 1; i >= 0; --i)
			r = mkIte(mkEq(c8, mkConst(x->data[off + i], 8)), mkConst(p + i, 64), r);
		ret = ve(r);
		return true;
	}
	case B_ABORT:
	case B_ASSERTFAIL:
		if (s.abortOk)
			throw PathEnd { 0 };
		violate(s, "abort", h == B_ABORT ? "abort() called" : "assertion failed: " + cstr(s, a[0]));
	case B_LIBASSERT: violate(s, "memory", "standard library precondition: " + cstr(s, a[3]));
	case B_TERMINATE:
		violate(s, "exception", "std::terminate called");
	case B_PUREVIRTUAL: violate(s, "memory", "pure virtual call");
	case B_EXIT:
		if (s.abortOk)
			throw PathEnd { 0 };
		violate(s, "abort", "exit() called");
	case B_ALLOCEXC: ret = vc(newObj(s, concretize(s, a[0], 64), OK_EXC, 0xFE)); return true;
	case B_FREEEXC: return true;
	case B_THROW: {
		u64 obj = a[0].lo, ti = a[1].lo;
		s.exc[obj] = ExcInfo { ti, a[2].lo, 0, false };
		unwind(s, obj, ti);
		return false;
	}
	case B_BEGINCATCH: {
		u64 obj = a[0].lo;
		s.t().caught.push_back(obj);
		ExcInfo& x = s.exc[obj];
		x.handlers++;
		x.rethrown = false;
		u64 p = obj;
		if (tiKind(s, x.type) == 4 || (g_globalNames.count(x.type) && g_globalNames[x.type].compare(0, 5, "_ZTIP") == 0))
			p = rd64(s, obj);
		ret = vc(p);
		return true;
	}
	case B_GETEXCPTR: ret = a[0]; return true;
	case B_ENDCATCH: {
		Thread& t = s.t();
		if (t.caught.empty())
			return true;
		u64 obj = t.caught.back();
		t.caught.pop_back();
		ExcInfo x = s.exc[obj];
		s.exc[obj].handlers--;
		if (s.exc[obj].handlers == 0 && !x.rethrown) {
			s.exc.erase(obj);
			if (x.dtor) {
				auto it = g_funcAddr.find(x.dtor);
				if (it != g_funcAddr.end() && !it->second->F->isDeclaration()) {
					std::vector<Val> args(1, vc(obj));
					pushFrame(s, it->second, args);
					return false;
				}
			}
		}
		return true;
	}
	case B_RETHROW: {
		Thread& t = s.t();
		if (t.caught.empty())
			violate(s, "exception", "rethrow without exception");
		u64 obj = t.caught.back();
		s.exc[obj].rethrown = true;
		unwind(s, obj, s.exc[obj].type);
		return false;
	}
	case B_RESUME: {
		u64 obj = a[0].lo;
		u64 ti = s.exc[obj].type;
		popFrame(s);
		unwind(s, obj, ti);
		return false;
	}
	case B_UNCAUGHT: return true;
	case B_GUARDACQ: {
		Val v = loadScalar(s, a[0], 8);
		ret = vc(v.lo ? 0 : 1);
		return true;
	}
	case B_GUARDREL: storeScalar(s, a[0], vc(1), 8); return true;
	case B_GUARDABORT:
	case B_ATEXIT:
	case B_RETZERO: return true;
	case B_ERRNO: {
		if (!s.misc.count("errno")) {
			u64 x = s.mem.alloc(4, OK_GLOBAL, 0);
			s.misc["errno"] = x;
		}
		ret = vc(s.misc["errno"]);
		return true;
	}
	case B_TIME: {
		if (a.size() && !a[0].e && a[0].lo)
			storeScalar(s, a[0], vc(1700000000), 64);
		ret = vc(1700000000);
		return true;
	}
	case B_FMTD: { // buf, size, value, precision, flags -> length
		u64 x = concretize(s, a[2], 64);
		int prec = (int)concretize(s, a[3], 32);
		u64 fl = concretize(s, a[4], 32);
		char fmt[32], buf[400];
		std::string f = "%";
		if (fl & 4)
			f += "+";
		if (fl & 8)
			f += "#";
		f += ".*";
		f += (fl & 3) == 1 ? "f" : (fl & 3) == 2 ? "e" : "g";
		snprintf(fmt, sizeof fmt, "%s", f.c_str());
		int n = snprintf(buf, sizeof buf, fmt, prec, bits2d(x));
		writeBytes(s, a[0].lo, buf, (u64)n + 1);
		ret = vc((u64)n);
		return true;
	}
	case B_STRTOD: { // concrete text -> double; returns consumed length through second argument
		std::string t = cstrConc(s, a[0]);
		char* end;
		double d = strtod(t.c_str(), &end);
		i64 used = end - t.c_str();
		storeScalar(s, a[1], vc((u64)used), 64);
		ret = vc(d2bits(d));
		return true;
	}
	case B_VSNPRINTF: { // buf, n, fmt, va_list
		std::string f = cstrConc(s, a[2]);
		u64 val = concretize(s, a[3], 64);
		u64 p = rd64(s, val + 8);
		auto next = [&](bool) { Val v = loadScalar(s, vc(p), 64); p += 8; return v; };
		std::string o = hostFormat(s, f, next);
		u64 n = concretize(s, a[1], 64);
		if (n) {
			std::string t = o.substr(0, n - 1);
			writeBytes(s, concretize(s, a[0], 64), t.c_str(), t.size() + 1);
		}
		ret = vc((u64)o.size());
		return true;
	}
	case B_SNPRINTF: {
		bool sp = fi->name == "sprintf";
		size_t k = sp ? 2 : 3;
		std::string f = cstrConc(s, a[sp ? 1 : 2]);
		auto next = [&](bool) { return k < a.size() ? a[k++] : vc(0); };
		std::string o = hostFormat(s, f, next);
		u64 n = sp ? o.size() + 1 : concretize(s, a[1], 64);
		if (n) {
			std::string t = o.substr(0, n - 1);
			writeBytes(s, concretize(s, a[0], 64), t.c_str(), t.size() + 1);
		}
		ret = vc((u64)o.size());
		return true;
	}
	case B_NPROC: ret = vc(8); return true;
	// ---- math
	case B_FABS:
	case B_SQRT:
	case B_FLOOR:
	case B_CEIL:
	case B_TRUNC:
	case B_RINT:
	case B_ROUND: ret = mathUn(s, h, a[0], typeBits(cb->getType())); return true;
	case B_FMIN:
	case B_FMAX: ret = mathMinMax(s, h == B_FMIN, a[0], a[1], typeBits(cb->getType())); return true;
	case B_COPYSIGN: {
		E x = toE(a[0], 64), y = toE(a[1], 64);
		ret = ve(mkConcat(mkExtract(y, 63, 1), mkExtract(x, 0, 63)));
		return true;
	}
	case B_LROUND: ret = ve(mkFPToI(toE(mathUn(s, B_ROUND, a[0], 64), 64), 64, true)); return true;
	case B_LDEXP: {
		int k = (int)concretize(s, a[1], 32);
		ret = ve(mkF(K::FMUL, toE(a[0], 64), mkConst(d2bits(ldexp(1.0, k)), 64)));
		return true;
	}
	case B_FREXP: {
		u64 x = concretize(s, a[0], 64);
		int ex;
		double f = frexp(bits2d(x), &ex);
		storeScalar(s, a[1], vc((u64)(uint32_t)ex), 32);
		ret = vc(d2bits(f));
		return true;
	}
	case B_MODF: {
		u64 x = concretize(s, a[0], 64);
		double ip;
		double f = modf(bits2d(x), &ip);
		storeScalar(s, a[1], vc(d2bits(ip)), 64);
		ret = vc(d2bits(f));
		return true;
	}
	case B_NEXTAFTER: ret = vc(d2bits(nextafter(bits2d(concretize(s, a[0], 64)), bits2d(concretize(s, a[1], 64))))); return true;
	case B_SINCOS: {
		int na;
		storeScalar(s, a[1], ve(mkFun(funCode("sin", na), toE(a[0], 64), nullptr, 64)), 64);
		storeScalar(s, a[2], ve(mkFun(funCode("cos", na), toE(a[0], 64), nullptr, 64)), 64);
		return true;
	}
	case B_MATHFUN:
	case B_MATHFUNF: {
		int na;
		int w = h == B_MATHFUN ? 64 : 32;
		int c = funCode(h == B_MATHFUN ? fi->name : fi->name.substr(0, fi->name.size() - 1), na);
		ret = ve(mkFun(c, toE(a[0], w), na > 1 ? toE(a[1], w) : nullptr, w));
		return true;
	}
	case B_DYNCAST: { // ptr, src type, dst type, offset
		u64 p = concretize(s, a[0], 64);
		if (!p)
			return true;
		u64 vt = rd64(s, p);
		u64 ti = rd64(s, vt - 8);
		i64 top = (i64)rd64(s, vt - 16);
		u64 adj = 0;
		if (tiDerives(s, ti, a[2].lo, adj))
			ret = vc(p + top + adj);
		return true;
	}
	// ---- threads
	case B_PTSELF: ret = vc((u64)s.t().id + 1); return true;
	case B_PTYIELD: syncPoint(s); return true;
	case B_PTMUTEXINIT: s.mutexes.erase(a[0].lo); return true;
	case B_PTCREATE: {
		if (g_useFixed && 0)
			return true;
		// may the environment refuse?  modelled by the harness through psx_thread_limit
		syncPoint(s);
		FuncInfo* f = nullptr;
		auto it = g_funcAddr.find(concretize(s, a[2], 64));
		if (it == g_funcAddr.end())
			unsupported(s, "pthread_create of unknown function");
		f = it->second;
		Thread nt;
		nt.id = (int)s.th.size();
		tick(s);
		nt.vc = s.t().vc;
		nt.vc[nt.id] = 1;
		tick(s);
		storeScalar(s, a[0], vc((u64)nt.id + 1), 64);
		int cur = s.cur;
		s.th.push_back(nt);
		s.cur = nt.id;
		std::vector<Val> args(1, a[3]);
		pushFrame(s, f, args);
		s.cur = cur;
		return true;
	}
	case B_PTJOIN: {
		syncPoint(s);
		u64 t = concretize(s, a[0], 64);
		if (t == 0 || t > s.th.size() || (int)t - 1 == s.cur)
			violate(s, "memory", "pthread_join of an invalid thread");
		--t;
		if (s.th[t].joined)
			violate(s, "memory", "pthread_join of a thread already joined");
		if (s.th[t].status != Thread::DONE)
			block(s, Thread::BLOCK_JOIN, t);
		s.th[t].joined = true;
		joinClock(s.t().vc, s.th[t].vc);
		u64 r = a.size() > 1 ? concretize(s, a[1], 64) : 0;
		if (r)
			storeScalar(s, vc(r), vc(s.th[t].retval), 64);
		return true;
	}
	case B_PTMUTEXLOCK:
	case B_PTMUTEXTRY: {
		syncPoint(s);
		u64 m = concretize(s, a[0], 64);
		auto& x = s.mutexes.emplace(m, std::make_pair(-1, VClock())).first->second;
		if (x.first == s.cur && h == B_PTMUTEXLOCK)
			violate(s, "deadlock", "mutex locked twice by the same thread");
		if (x.first >= 0) {
			if (h == B_PTMUTEXTRY) {
				ret = vc(16);
				return true;
			}
			block(s, Thread::BLOCK_MUTEX, m);
		}
		x.first = s.cur;
		joinClock(s.t().vc, x.second);
		return true;
	}
	case B_PTMUTEXUNLOCK: {
		syncPoint(s);
		u64 m = concretize(s, a[0], 64);
		auto& x = s.mutexes.emplace(m, std::make_pair(-1, VClock())).first->second;
		if (x.first != s.cur)
			violate(s, "deadlock", "mutex unlocked by a thread that does not hold it");
		x.first = -1;
		joinClock(x.second, s.t().vc);
		tick(s);
		return true;
	}
	case B_PTCONDWAIT: {
		syncPoint(s);
		u64 c = concretize(s, a[0], 64), m = concretize(s, a[1], 64);
		Thread& t = s.t();
		std::string key = "cw" + std::to_string(s.cur);
		if (!s.misc.count(key)) {
			auto& x = s.mutexes.emplace(m, std::make_pair(-1, VClock())).first->second;
			x.first = -1;
			joinClock(x.second, t.vc);
			tick(s);
			s.misc[key] = 1;
			block(s, Thread::BLOCK_COND, c);
		}
		// woken: acquire the mutex again
		auto& x = s.mutexes.emplace(m, std::make_pair(-1, VClock())).first->second;
		if (x.first >= 0)
			block(s, Thread::BLOCK_MUTEX, m);
		x.first = s.cur;
		joinClock(t.vc, x.second);
		s.misc.erase(key);
		return true;
	}
	case B_PTCONDSIGNAL:
	case B_PTCONDBROAD: {
		syncPoint(s);
		u64 c = concretize(s, a[0], 64);
		std::vector<int> w;
		for (size_t i = 0; i < s.th.size(); ++i)
			if (s.th[i].status == Thread::BLOCK_COND && s.th[i].waitOn == c)
				w.push_back((int)i);
		if (h == B_PTCONDSIGNAL && w.size() > 1)
			w.resize(1);
		for (int i : w)
			s.th[i].status = Thread::RUN;
		return true;
	}
	case B_PTEXIT: { // only the frames of the thread go away: destructors on the way are not run
		Thread& t = s.t();
		if (s.cur == 0)
			unsupported(s, "pthread_exit of the main thread");
		t.retval = concretize(s, a[0], 64);
		while (!s.t().st.empty())
			popFrame(s);
		s.t().status = Thread::DONE;
		tick(s);
		s.misc["granted"] = 0;
		schedule(s);
		throw Reexec();
	}
	}
	unsupported(s, "builtin " + fi->name);
}

// intrinsics by id
static bool intrinsic(State& s, CallBase* cb, FuncInfo* fi, std::vector<Val>& a, Val& ret)
{
	ret = vc(0);
	unsigned id = fi->F->getIntrinsicID();
	Type* ty = cb->getType();
	int w = typeBits(ty);
	switch (id) {
	case Intrinsic::memcpy:
	case Intrinsic::memcpy_inline: return builtin(s, B_MEMCPY, fi, a, cb, ret);
	case Intrinsic::memmove: return builtin(s, B_MEMMOVE, fi, a, cb, ret);
	case Intrinsic::memset: return builtin(s, B_MEMSET, fi, a, cb, ret);
	case Intrinsic::expect:
	case Intrinsic::expect_with_probability:
	case Intrinsic::launder_invariant_group:
	case Intrinsic::strip_invariant_group: ret = a[0]; return true;
	case Intrinsic::trap: violate(s, "abort", "trap");
	case Intrinsic::stacksave:
	case Intrinsic::stackrestore:
	case Intrinsic::vaend:
	case Intrinsic::invariant_start:
	case Intrinsic::invariant_end: return true;
	case Intrinsic::vastart: {
		Frame* f = s.top();
		u64 n = f->varargs.size();
		u64 area = s.mem.alloc(n * 8 + 8, OK_STACK, 0);
		s.wtop()->allocas.push_back(area);
		for (u64 i = 0; i < n; ++i)
			storeScalar(s, vc(area + 8 * i), f->varargs[i], 64);
		storeScalar(s, a[0], vc(48), 32);
		storeScalar(s, vadd(a[0], 4), vc(304), 32);
		storeScalar(s, vadd(a[0], 8), vc(area), 64);
		storeScalar(s, vadd(a[0], 16), vc(0), 64);
		return true;
	}
	case Intrinsic::vacopy: copyBytes(s, a[0].lo, a[1].lo, 24); return true;
	case Intrinsic::eh_typeid_for: ret = vc((u64)typeIdOf(a[0].lo)); return true;
	case Intrinsic::objectsize: ret = vc(~0ull & (u64)maskw(w)); return true;
	case Intrinsic::is_constant: ret = vc(0); return true;
	case Intrinsic::fabs: ret = mathUn(s, B_FABS, a[0], w); return w != 0;
	case Intrinsic::sqrt: ret = mathUn(s, B_SQRT, a[0], w); return true;
	case Intrinsic::floor: ret = mathUn(s, B_FLOOR, a[0], w); return true;
	case Intrinsic::ceil: ret = mathUn(s, B_CEIL, a[0], w); return true;
	case Intrinsic::trunc: ret = mathUn(s, B_TRUNC, a[0], w); return true;
	case Intrinsic::rint:
	case Intrinsic::nearbyint: ret = mathUn(s, B_RINT, a[0], w); return true;
	case Intrinsic::round: ret = mathUn(s, B_ROUND, a[0], w); return true;
	case Intrinsic::minnum: ret = mathMinMax(s, true, a[0], a[1], w); return true;
	case Intrinsic::maxnum: ret = mathMinMax(s, false, a[0], a[1], w); return true;
	case Intrinsic::fmuladd:
		ret = binop(s, Instruction::FAdd, binop(s, Instruction::FMul, a[0], a[1], w), a[2], w);
		return true;
	case Intrinsic::copysign: return builtin(s, B_COPYSIGN, fi, a, cb, ret);
	case Intrinsic::exp:
	case Intrinsic::log:
	case Intrinsic::sin:
	case Intrinsic::cos:
	case Intrinsic::pow:
	case Intrinsic::log10:
	case Intrinsic::log2:
	case Intrinsic::exp2: {
		const char* n = id == Intrinsic::exp ? "exp" : id == Intrinsic::log ? "log" : id == Intrinsic::sin ? "sin" : id == Intrinsic::cos ? "cos" : id == Intrinsic::pow ? "pow" : id == Intrinsic::log10 ? "log10" : id == Intrinsic::log2 ? "log2" : "exp2";
		int na;
		int c = funCode(n, na);
		ret = ve(mkFun(c, toE(a[0], w), na > 1 ? toE(a[1], w) : nullptr, w));
		return true;
	}
	case Intrinsic::ldexp: {
		int k = (int)concretize(s, a[1], 32);
		ret = ve(mkF(K::FMUL, toE(a[0], 64), mkConst(d2bits(ldexp(1.0, k)), 64)));
		return true;
	}
	case Intrinsic::powi: {
		int k = (int)concretize(s, a[1], 32);
		if (!a[0].e && w == 64) {
			ret = vc(d2bits(__builtin_powi(asD(a[0]), k)));
			return true;
		}
		E r = mkConst(d2bits(1.0), 64), b = toE(a[0], 64);
		unsigned n = k < 0 ? -k : k;
		while (n) {
			if (n & 1)
				r = mkF(K::FMUL, r, b);
			n >>= 1;
			if (n)
				b = mkF(K::FMUL, b, b);
		}
		if (k < 0)
			r = mkF(K::FDIV, mkConst(d2bits(1.0), 64), r);
		ret = ve(r);
		return true;
	}
	case Intrinsic::is_fpclass: {
		unsigned mask = (unsigned)a[1].lo;
		Type* at = cb->getArgOperand(0)->getType();
		int fw = typeBits(at);
		if (!a[0].e && fw == 64) {
			double d = asD(a[0]);
			unsigned c = 0;
			bool neg = std::signbit(d);
			switch (std::fpclassify(d)) {
			case FP_NAN: c = 3; break;
			case FP_INFINITE: c = neg ? 4 : 512; break;
			case FP_NORMAL: c = neg ? 8 : 256; break;
			case FP_SUBNORMAL: c = neg ? 16 : 128; break;
			default: c = neg ? 32 : 64; break;
			}
			ret = vc((c & mask) != 0);
			return true;
		}
		if (mask == 3) {
			ret = fcmp(s, CmpInst::FCMP_UNO, a[0], a[0], fw);
			return true;
		}
		E ab = mkFAbs(toE(a[0], fw));
		E inf = mkConst(fw == 64 ? d2bits(INFINITY) : f2bits(INFINITY), fw);
		if (mask == 0x204) {
			ret = ve(mkFCmp(K::FEQ, ab, inf));
			return true;
		}
		if (mask == 0x1f8) {
			ret = ve(mkFCmp(K::FLT, ab, inf));
			return true;
		}
		unsupported(s, "is_fpclass");
	}
	case Intrinsic::abs: {
		E x = toE(a[0], w);
		ret = ve(mkIte(mkSlt(x, mkConst(0, w)), mkNeg(x), x));
		return true;
	}
	case Intrinsic::smax:
	case Intrinsic::smin:
	case Intrinsic::umax:
	case Intrinsic::umin: {
		if (!w)
			break;
		E x = toE(a[0], w), y = toE(a[1], w);
		E c = (id == Intrinsic::smax || id == Intrinsic::smin) ? mkSlt(x, y) : mkUlt(x, y);
		bool mn = id == Intrinsic::smin || id == Intrinsic::umin;
		ret = ve(mkIte(c, mn ? x : y, mn ? y : x));
		return true;
	}
	case Intrinsic::ctpop: ret = ve(mkUn(K::POPCNT, toE(a[0], w))); return w != 0;
	case Intrinsic::ctlz: ret = ve(mkUn(K::CTLZ, toE(a[0], w))); return true;
	case Intrinsic::cttz: ret = ve(mkUn(K::CTTZ, toE(a[0], w))); return true;
	case Intrinsic::bswap: ret = ve(mkUn(K::BSWAP, toE(a[0], w))); return true;
	case Intrinsic::fshl:
	case Intrinsic::fshr: {
		E x = toE(a[0], w), y = toE(a[1], w), z = mkBin(K::UREM, toE(a[2], w), mkConst(w, w));
		E inv = mkSub(mkConst(w, w), z);
		if (id == Intrinsic::fshl)
			ret = ve(mkIte(mkEq(z, mkConst(0, w)), x, mkOr(mkBin(K::SHL, x, z), mkBin(K::LSHR, y, inv))));
		else
			ret = ve(mkIte(mkEq(z, mkConst(0, w)), y, mkOr(mkBin(K::SHL, x, inv), mkBin(K::LSHR, y, z))));
		return true;
	}
	case Intrinsic::uadd_with_overflow:
	case Intrinsic::usub_with_overflow:
	case Intrinsic::umul_with_overflow:
	case Intrinsic::sadd_with_overflow:
	case Intrinsic::ssub_with_overflow:
	case Intrinsic::smul_with_overflow: {
		int iw = typeBits(cb->getArgOperand(0)->getType());
		E x = toE(a[0], iw), y = toE(a[1], iw), r = nullptr, o = nullptr;
		bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
		if (iw * 2 > 128)
			unsupported(s, "overflow intrinsic width");
		E X = sg ? mkSext(x, 2 * iw) : mkZext(x, 2 * iw), Y = sg ? mkSext(y, 2 * iw) : mkZext(y, 2 * iw);
		E R;
		if (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow)
			R = mkAdd(X, Y);
		else if (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow)
			R = mkSub(X, Y);
		else
			R = mkMul(X, Y);
		if (id == Intrinsic::uadd_with_overflow)
			r = mkAdd(x, y), o = mkUlt(r, x);
		else if (id == Intrinsic::usub_with_overflow)
			r = mkSub(x, y), o = mkUlt(x, y);
		else {
			r = mkExtract(R, 0, iw);
			if (id == Intrinsic::umul_with_overflow && !x->isConst() + !y->isConst() && iw == 64) {
				// avoid 128 bit products: bounds, then division by the constant
				if (x->uhi == 0 || y->uhi <= ~0ull / x->uhi)
					o = mkFalse();
				else if (y->isConst() && y->cv())
					o = mkUlt(mkConst(~0ull / y->cv(), 64), x);
				else if (x->isConst() && x->cv())
					o = mkUlt(mkConst(~0ull / x->cv(), 64), y);
				r = mkMul(x, y);
			}
			if (!o)
				o = mkNot(mkEq(R, sg ? mkSext(r, 2 * iw) : mkZext(r, 2 * iw)));
		}
		ret = mkAgg({ ve(r), ve(o) });
		return true;
	}
	case Intrinsic::usub_sat: {
		E x = toE(a[0], w), y = toE(a[1], w);
		ret = ve(mkIte(mkUlt(x, y), mkConst(0, w), mkSub(x, y)));
		return true;
	}
	case Intrinsic::uadd_sat: {
		E x = toE(a[0], w), y = toE(a[1], w), r = mkAdd(x, y);
		ret = ve(mkIte(mkUlt(r, x), mkConst(~(u128)0, w), r));
		return true;
	}
	case Intrinsic::lround:
	case Intrinsic::llround: return builtin(s, B_LROUND, fi, a, cb, ret);
	case Intrinsic::threadlocal_address: ret = a[0]; return true;
	case Intrinsic::ptrmask: ret = ve(mkBin(K::AND, toE(a[0], 64), toE(a[1], 64))); return true;
	case Intrinsic::vector_reduce_add:
	case Intrinsic::vector_reduce_or:
	case Intrinsic::vector_reduce_and: {
		Val r = a[0].agg[0];
		for (u64 i = 1; i < a[0].lo; ++i)
			r = binop(s, id == Intrinsic::vector_reduce_add ? Instruction::Add : id == Intrinsic::vector_reduce_or ? Instruction::Or : Instruction::And, r, a[0].agg[i], w);
		ret = r;
		return true;
	}
	}
	unsupported(s, "intrinsic " + fi->name);
}

static void callFunction(State& s, FuncInfo* fi, std::vector<Val>& args, CallBase* cb, int)
{
	Val ret;
	if (fi->handler >= 0) {
		if (builtin(s, fi->handler, fi, args, cb, ret)) {
			if (cb->getType()->isIntegerTy() && !ret.e && !ret.agg)
				ret.lo &= (u64)maskw(typeBits(cb->getType()));
			else if (ret.e && cb->getType()->isIntegerTy() && ret.e->w != typeBits(cb->getType()))
				ret = ve(ret.e->w > typeBits(cb->getType()) ? mkExtract(ret.e, 0, typeBits(cb->getType())) : mkZext(ret.e, typeBits(cb->getType())));
			afterCall(s, ret);
		}
		return;
	}
	if (fi->F->isIntrinsic()) {
		if (intrinsic(s, cb, fi, args, ret))
			afterCall(s, ret);
		else
			unsupported(s, "intrinsic " + fi->name);
		return;
	}
	if (fi->F->isDeclaration())
		unsupported(s, "external function " + demangle(fi->name) + " (" + fi->name + ")");
	// byval arguments are copied
	for (unsigned i = 0; i < cb->arg_size() && i < args.size(); ++i)
		if (cb->isByValArgument(i)) {
			u64 n = g_dl->getTypeAllocSize(cb->getParamByValType(i));
			u64 p = s.mem.alloc(n, OK_STACK, 0);
			s.wtop()->allocas.push_back(p);
			copyBytes(s, p, concretize(s, args[i], 64), n);
			args[i] = vc(p);
		}
	pushFrame(s, fi, args);
}

// ------------------------------------------------------------------ one instruction
static void atomicAccess(State& s, const Val& p, bool write)
{
	if (s.th.size() <= 1)
		return;
	syncPoint(s);
	u64 a = concretize(s, p, 64);
	VClock& c = s.syncClk[a];
	joinClock(s.t().vc, c);
	if (write) {
		joinClock(c, s.t().vc);
		tick(s);
	}
}

static void step(State& s)
{
	Frame* fr = s.wtop();
	FuncInfo* fi = fr->f;
	Ins& in = fi->ins[fr->pc];
	++s.icount;
	++g_totalInstr;
	switch (in.opc) {
	case Instruction::Ret: {
		Val v = vc(0);
		if (!in.ops.empty())
			v = getv(fr, in.ops[0]);
		popFrame(s);
		if (s.t().st.empty()) {
			if (s.cur == 0)
				throw PathEnd { 0 };
			Thread& t = s.t();
			t.status = Thread::DONE;
			t.retval = v.lo;
			tick(s);
			s.misc["granted"] = 0;
			schedule(s);
			return;
		}
		if (s.top()->pc < 0) { // constructor driver
			++s.wtop()->pc;
			return;
		}
		afterCall(s, v);
		return;
	}
	case Instruction::Br: {
		if (in.imm.size() == 1) {
			jump(s, (int)in.imm[0]);
			return;
		}
		const Val c = getv(fr, in.ops[0]);
		if (!c.e) {
			jump(s, (int)in.imm[(c.lo & 1) ? 0 : 1]);
			return;
		}
		State* o;
		bool v = decide(s, c.e, o);
		if (o) {
			jump(*o, (int)in.imm[v ? 1 : 0]);
			pushWork(o);
		}
		jump(s, (int)in.imm[v ? 0 : 1]);
		return;
	}
	case Instruction::Switch: {
		const Val c = getv(fr, in.ops[0]);
		if (!c.e) {
			u64 x = c.lo & (u64)maskw(in.w);
			for (size_t i = 1; i < in.imm.size(); i += 2)
				if (in.imm[i] == x) {
					jump(s, (int)in.imm[i + 1]);
					return;
				}
			jump(s, (int)in.imm[0]);
			return;
		}
		for (size_t i = 1; i < in.imm.size(); i += 2) {
			E eq = mkEq(c.e, mkConst(in.imm[i], in.w));
			int k = known(s, eq);
			if (k == 0)
				continue;
			if (k == 1) {
				jump(s, (int)in.imm[i + 1]);
				return;
			}
			State* o;
			bool v = decide(s, eq, o);
			if (v) {
				if (o)
					pushWork(o); // re-executes with eq excluded
				jump(s, (int)in.imm[i + 1]);
				return;
			}
			if (o) {
				jump(*o, (int)in.imm[i + 1]);
				pushWork(o);
			}
		}
		jump(s, (int)in.imm[0]);
		return;
	}
	case Instruction::Unreachable: violate(s, "abort", "unreachable code reached");
	case Instruction::Call:
	case Instruction::Invoke: {
		CallBase* cb = cast<CallBase>(in.I);
		FuncInfo* callee = in.callee;
		std::vector<Val> args;
		args.reserve(in.ops.size());
		for (size_t i = 0; i + 1 < in.ops.size(); ++i)
			args.push_back(getv(fr, in.ops[i]));
		if (!callee) {
			if (cb->isInlineAsm()) {
				afterCall(s, vc(0));
				return;
			}
			u64 t = concretize(s, getv(fr, in.ops.back()), 64);
			auto it = g_funcAddr.find(t);
			if (it == g_funcAddr.end())
				violate(s, "memory", "call through an invalid function pointer");
			callee = it->second;
		}
		callFunction(s, callee, args, cb, 0);
		return;
	}
	case Instruction::Resume: {
		const Val v = getv(fr, in.ops[0]);
		u64 obj = v.agg[0].lo;
		u64 ti = s.exc[obj].type;
		popFrame(s);
		unwind(s, obj, ti);
		return;
	}
	case Instruction::LandingPad: {
		Thread& t = s.t();
		int sel = lpSelector(s, cast<LandingPadInst>(in.I), t.excObj, t.excType);
		advance(s, in.dest, mkAgg({ vc(t.excObj), vc((u64)std::max(sel, 0)) }));
		return;
	}
	case Instruction::Alloca: {
		auto* ai = cast<AllocaInst>(in.I);
		u64 n = g_dl->getTypeAllocSize(ai->getAllocatedType());
		n *= concretize(s, getv(fr, in.ops[0]), 64);
		u64 a = s.mem.alloc(n, OK_STACK, 0xFE);
		s.wtop()->allocas.push_back(a);
		advance(s, in.dest, vc(a));
		return;
	}
	case Instruction::Load: {
		auto* li = cast<LoadInst>(in.I);
		const Val p = getv(fr, in.ops[0]);
		if (li->isAtomic())
			atomicAccess(s, p, false);
		Val v;
		if (li->isAtomic() && s.th.size() > 1) {
			u64 a = concretize(s, p, 64);
			v = loadRaw(s, checkAccess(s, a, (in.w + 7) / 8, false), a & 0xffffffffu, in.w);
		} else
			v = in.w ? loadScalar(s, p, in.w) : loadType(s, p, li->getType());
		advance(s, in.dest, v);
		return;
	}
	case Instruction::Store: {
		auto* si = cast<StoreInst>(in.I);
		const Val v = getv(fr, in.ops[0]), p = getv(fr, in.ops[1]);
		int w = typeBits(si->getValueOperand()->getType());
		if (si->isAtomic() && s.th.size() > 1) {
			atomicAccess(s, p, true);
			u64 a = concretize(s, p, 64);
			checkAccess(s, a, (w + 7) / 8, true);
			storeRaw(s.mem.getW(a >> 32), a & 0xffffffffu, v, w);
		} else if (w)
			storeScalar(s, p, v, w);
		else
			storeType(s, p, v, si->getValueOperand()->getType());
		advance(s, -1, v);
		return;
	}
	case Instruction::AtomicRMW: {
		auto* ar = cast<AtomicRMWInst>(in.I);
		const Val p = getv(fr, in.ops[0]), v = getv(fr, in.ops[1]);
		atomicAccess(s, p, true);
		u64 a = concretize(s, p, 64);
		const Obj* o = checkAccess(s, a, (in.w + 7) / 8, true);
		Val old = loadRaw(s, o, a & 0xffffffffu, in.w), nv;
		switch (ar->getOperation()) {
		case AtomicRMWInst::Xchg: nv = v; break;
		case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, old, v, in.w); break;
		case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, old, v, in.w); break;
		case AtomicRMWInst::And: nv = binop(s, Instruction::And, old, v, in.w); break;
		case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, old, v, in.w); break;
		case AtomicRMWInst::Xor: nv = binop(s, Instruction::Xor, old, v, in.w); break;
		default: unsupported(s, "atomicrmw");
		}
		storeRaw(s.mem.getW(a >> 32), a & 0xffffffffu, nv, in.w);
		advance(s, in.dest, old);
		return;
	}
	case Instruction::AtomicCmpXchg: {
		auto* cx = cast<AtomicCmpXchgInst>(in.I);
		int w = typeBits(cx->getCompareOperand()->getType());
		const Val p = getv(fr, in.ops[0]), c = getv(fr, in.ops[1]), n = getv(fr, in.ops[2]);
		atomicAccess(s, p, true);
		u64 a = concretize(s, p, 64);
		Val old = loadRaw(s, checkAccess(s, a, (w + 7) / 8, true), a & 0xffffffffu, w);
		Val eq = icmp(CmpInst::ICMP_EQ, old, c, w);
		bool ok = eq.e ? branchOn(s, eq.e) : eq.lo;
		if (ok)
			storeRaw(s.mem.getW(a >> 32), a & 0xffffffffu, n, w);
		advance(s, in.dest, mkAgg({ old, vc(ok) }));
		return;
	}
	case Instruction::Fence: advance(s, -1, vc(0)); return;
	case Instruction::GetElementPtr: {
		if (in.vec)
			unsupported(s, "vector gep");
		const Val& b = getv(fr, in.ops[0]);
		u64 cst = in.imm.back();
		bool conc = !b.e;
		u64 acc = b.lo + cst;
		for (size_t i = 1; i < in.ops.size() && conc; ++i) {
			const Val& x = getv(fr, in.ops[i]);
			if (x.e)
				conc = false;
			else
				acc += (u64)sextw(x.lo, (int)in.imm[2 * (i - 1) + 1]) * in.imm[2 * (i - 1)];
		}
		if (conc) {
			advance(s, in.dest, vc(acc));
			return;
		}
		E e = mkAdd(toE(b, 64), mkConst(cst, 64));
		for (size_t i = 1; i < in.ops.size(); ++i) {
			int iw = (int)in.imm[2 * (i - 1) + 1];
			E x = mkSext(toE(getv(fr, in.ops[i]), iw), 64);
			e = mkAdd(e, mkMul(x, mkConst(in.imm[2 * (i - 1)], 64)));
		}
		advance(s, in.dest, ve(e));
		return;
	}
	case Instruction::ICmp:
	case Instruction::FCmp: {
		const Val a = getv(fr, in.ops[0]), b = getv(fr, in.ops[1]);
		if (in.vec) {
			std::vector<Val> r;
			for (u64 i = 0; i < a.lo; ++i)
				r.push_back(in.opc == Instruction::ICmp ? icmp(in.sub, a.agg[i], b.agg[i], in.w) : fcmp(s, in.sub, a.agg[i], b.agg[i], in.w));
			advance(s, in.dest, mkAgg(r));
			return;
		}
		advance(s, in.dest, in.opc == Instruction::ICmp ? icmp(in.sub, a, b, in.w) : fcmp(s, in.sub, a, b, in.w));
		return;
	}
	case Instruction::Select: {
		const Val c = getv(fr, in.ops[0]), a = getv(fr, in.ops[1]), b = getv(fr, in.ops[2]);
		if (c.agg) {
			std::vector<Val> r;
			for (u64 i = 0; i < c.lo; ++i)
				r.push_back(c.agg[i].e ? ve(mkIte(c.agg[i].e, toE(a.agg[i], in.w), toE(b.agg[i], in.w))) : (c.agg[i].lo & 1) ? a.agg[i] : b.agg[i]);
			advance(s, in.dest, mkAgg(r));
			return;
		}
		if (!c.e) {
			advance(s, in.dest, (c.lo & 1) ? a : b);
			return;
		}
		if (a.agg || b.agg || in.w == 80) {
			bool v = branchOn(s, c.e);
			advance(s, in.dest, v ? a : b);
			return;
		}
		if (in.I->getType()->isPointerTy()) {
			// keep pointers concrete
			bool v = branchOn(s, c.e);
			advance(s, in.dest, v ? a : b);
			return;
		}
		{
			E ce = c.e;
			int k = known(s, ce);
			if (k < 0 && orderSettles(s.pc, ce, k)) { }
			if (k >= 0)
				advance(s, in.dest, k ? a : b);
			else
				advance(s, in.dest, ve(mkIte(ce, toE(a, in.w), toE(b, in.w))));
		}
		return;
	}
	case Instruction::Freeze: advance(s, in.dest, getv(fr, in.ops[0])); return;
	case Instruction::FNeg: {
		const Val a = getv(fr, in.ops[0]);
		auto neg = [&](const Val& x) -> Val {
			if (in.w == 80) {
				if (x.e)
					unsupported(s, "symbolic long double");
				return fromLD(-asLD(x));
			}
			if (!x.e)
				return vc(x.lo ^ ((u64)1 << (in.w - 1)));
			return ve(mkFNeg(x.e));
		};
		if (a.agg) {
			std::vector<Val> r;
			for (u64 i = 0; i < a.lo; ++i)
				r.push_back(neg(a.agg[i]));
			advance(s, in.dest, mkAgg(r));
		} else
			advance(s, in.dest, neg(a));
		return;
	}
	case Instruction::ExtractValue: {
		auto* ev = cast<ExtractValueInst>(in.I);
		Val v = getv(fr, in.ops[0]);
		for (unsigned i : ev->indices())
			v = v.agg[i];
		advance(s, in.dest, v);
		return;
	}
	case Instruction::InsertValue: {
		auto* iv = cast<InsertValueInst>(in.I);
		Val v = getv(fr, in.ops[0]), x = getv(fr, in.ops[1]);
		std::function<Val(Val, unsigned)> ins = [&](Val agg, unsigned d) -> Val {
			if (d == iv->getNumIndices())
				return x;
			std::vector<Val> r(agg.agg, agg.agg + agg.lo);
			r[iv->getIndices()[d]] = ins(r[iv->getIndices()[d]], d + 1);
			return mkAgg(r);
		};
		advance(s, in.dest, ins(v, 0));
		return;
	}
	case Instruction::ExtractElement: {
		const Val v = getv(fr, in.ops[0]);
		u64 i = concretize(s, getv(fr, in.ops[1]), 64);
		advance(s, in.dest, v.agg[i]);
		return;
	}
	case Instruction::InsertElement: {
		const Val v = getv(fr, in.ops[0]), x = getv(fr, in.ops[1]);
		u64 i = concretize(s, getv(fr, in.ops[2]), 64);
		std::vector<Val> r(v.agg, v.agg + v.lo);
		r[i] = x;
		advance(s, in.dest, mkAgg(r));
		return;
	}
	case Instruction::ShuffleVector: {
		auto* sv = cast<ShuffleVectorInst>(in.I);
		const Val a = getv(fr, in.ops[0]), b = getv(fr, in.ops[1]);
		std::vector<Val> r;
		for (int m : sv->getShuffleMask())
			r.push_back(m < 0 ? vc(0) : (u64)m < a.lo ? a.agg[m] : b.agg[m - a.lo]);
		advance(s, in.dest, mkAgg(r));
		return;
	}
	default: break;
	}
	if (in.I->isBinaryOp()) {
		const Val a = getv(fr, in.ops[0]), b = getv(fr, in.ops[1]);
		if (in.vec) {
			std::vector<Val> r;
			for (u64 i = 0; i < a.lo; ++i)
				r.push_back(binop(s, in.opc, a.agg[i], b.agg[i], in.w));
			advance(s, in.dest, mkAgg(r));
		} else
			advance(s, in.dest, binop(s, in.opc, a, b, in.w));
		return;
	}
	if (in.I->isCast()) {
		const Val a = getv(fr, in.ops[0]);
		Type* st = in.I->getOperand(0)->getType();
		Type* dt = in.I->getType();
		if (in.opc == Instruction::BitCast && (st->isVectorTy() || dt->isVectorTy())) {
			// flatten to one expression and split again
			E e = nullptr;
			if (a.agg) {
				int ew = typeBits(cast<FixedVectorType>(st)->getElementType());
				for (u64 i = 0; i < a.lo; ++i)
					e = e ? mkConcat(toE(a.agg[i], ew), e) : toE(a.agg[i], ew);
			} else
				e = toE(a, typeBits(st));
			if (auto* vt = dyn_cast<FixedVectorType>(dt)) {
				int ew = typeBits(vt->getElementType());
				std::vector<Val> r;
				for (unsigned i = 0; i < vt->getNumElements(); ++i)
					r.push_back(ve(mkExtract(e, (int)(i * ew), ew)));
				advance(s, in.dest, mkAgg(r));
			} else
				advance(s, in.dest, ve(e));
			return;
		}
		if (in.vec) {
			std::vector<Val> r;
			for (u64 i = 0; i < a.lo; ++i)
				r.push_back(castop(s, in.opc, a.agg[i], (int)in.sub, in.w));
			advance(s, in.dest, mkAgg(r));
		} else
			advance(s, in.dest, castop(s, in.opc, a, (int)in.sub, in.w));
		return;
	}
	std::string str;
	raw_string_ostream os(str);
	os << *in.I;
	unsupported(s, "instruction " + str);
}

static void finishPath(State& s)
{
	++g_paths;
	++g_pathsDoneOk;
	// reservoir sample of completed paths for translator validation
	++g_sampleSeen;
	bool take = (int)g_samples.size() < g_nSamples;
	size_t slot = g_samples.size();
	if (!take) {
		u64 r = (g_sampleSeen * 0x9E3779B97F4A7C15ull) >> 20;
		if (r % g_sampleSeen < (u64)g_nSamples) {
			take = true;
			slot = r % (u64)g_nSamples;
		}
	}
	if (take) {
		Sample sm;
		sm.inputs = inputValues(s, s.model);
		sm.sched = s.sched;
		for (auto& o : s.obs) {
			u64 x = o.v.e ? (u64)evalE(o.v.e, s.model) : o.v.lo;
			char b[64];
			if (o.fp)
				snprintf(b, sizeof b, "%.17g", bits2d(x) + 0.0);
			else
				snprintf(b, sizeof b, "%llu", (unsigned long long)x);
			sm.obs.push_back({ o.fp ? 1 : 0, b });
		}
		if (slot == g_samples.size())
			g_samples.push_back(sm);
		else
			g_samples[slot] = sm;
	}
}

static void runState(State* s)
{
	u64 checkAt = 0;
	try {
		for (;;) {
			if (++checkAt % 4096 == 0 && now() > g_deadline) {
				g_incomplete.insert("time budget exhausted");
				++g_paths;
				++g_killed;
				delete s;
				return;
			}
			if (s->icount > g_maxInstr)
				violate(*s, "hang", "no result after " + std::to_string(g_maxInstr) + " instructions");
			Frame* f = s->th[s->cur].st.back();
			FuncInfo* fi = f->f;
			fi->hits[f->pc] = 1;
			try {
				step(*s);
			} catch (Reexec&) {
			}
		}
	} catch (PathEnd& p) {
		if (p.why == 0)
			finishPath(*s);
		else {
			++g_paths;
			if (p.why == 1)
				++g_killed;
		}
	}
	delete s;
}

// ------------------------------------------------------------------ loading
static void writeConst(State& s, u64 addr, const Constant* c)
{
	Type* t = c->getType();
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c))
		return;
	if (typeBits(t)) {
		Val v = constVal(c);
		int w = typeBits(t);
		Obj* o = s.mem.getW(addr >> 32);
		storeRaw(o, addr & 0xffffffffu, v, w);
		return;
	}
	if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
		StringRef r = cd->getRawDataValues();
		Obj* o = s.mem.getW(addr >> 32);
		memcpy(o->data + (addr & 0xffffffffu), r.data(), r.size());
		return;
	}
	if (auto* st = dyn_cast<StructType>(t)) {
		const StructLayout* sl = g_dl->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); ++i)
			writeConst(s, addr + sl->getElementOffset(i), cast<Constant>(c->getOperand(i)));
	} else if (auto* at = dyn_cast<ArrayType>(t)) {
		u64 es = g_dl->getTypeAllocSize(at->getElementType());
		for (u64 i = 0; i < at->getNumElements(); ++i)
			writeConst(s, addr + i * es, cast<Constant>(c->getOperand((unsigned)i)));
	} else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
		u64 es = typeBits(vt->getElementType()) / 8;
		for (u64 i = 0; i < vt->getNumElements(); ++i)
			writeConst(s, addr + i * es, cast<Constant>(c->getOperand((unsigned)i)));
	}
}

static std::string jstr(const std::string& x)
{
	std::string r = "\"";
	for (unsigned char c : x) {
		if (c == '"' || c == '\\') {
			r += '\\';
			r += (char)c;
		} else if (c == '\n')
			r += "\\n";
		else if (c < 32 || c > 126) {
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", c);
			r += b;
		} else
			r += (char)c;
	}
	return r + "\"";
}

struct Opts {
	std::string bc, entry, out;
	double timeout = 600;
	bool list = false;
	u64 split = 1, part = 0;
};
static Opts g_o;

static int realMain()
{
	SMDiagnostic err;
	g_mod = parseIRFile(g_o.bc, err, g_ctx);
	if (!g_mod) {
		err.print("psx", errs());
		return 3;
	}
	g_dl = &g_mod->getDataLayout();
	if (g_o.list) {
		for (auto& f : *g_mod)
			if (f.getName().starts_with("psx_case_") && !f.isDeclaration())
				printf("%s\n", f.getName().str().substr(9).c_str());
		return 0;
	}
	double t0 = now();
	g_deadline = t0 + g_o.timeout;
	State* s0 = new State;
	++g_states;
	for (auto& f : *g_mod) {
		FuncInfo* fi = new FuncInfo;
		fi->F = &f;
		fi->name = f.getName().str();
		fi->addr = s0->mem.reserveId() << 32;
		// a few functions are always builtins, the others only when the module has no definition
		int h = builtinId(fi->name);
		if (f.isDeclaration() || h >= 0)
			fi->handler = f.isIntrinsic() ? -1 : h;
		g_funcs[&f] = fi;
		g_funcAddr[fi->addr] = fi;
	}
	for (auto& g : g_mod->globals()) {
		u64 sz = g.getValueType()->isSized() ? (u64)g_dl->getTypeAllocSize(g.getValueType()) : 8;
		if (g.isDeclaration())
			sz = std::max<u64>(sz, 256);
		u64 a = s0->mem.alloc(sz, OK_GLOBAL, 0);
		g_gaddr[&g] = a;
		g_globalNames[a] = g.getName().str();
	}
	for (auto& g : g_mod->globals()) {
		if (g.hasInitializer())
			writeConst(*s0, g_gaddr[&g], g.getInitializer());
	}
	for (auto& g : g_mod->globals())
		if (g.isConstant() && g.hasInitializer())
			s0->mem.getW(g_gaddr[&g] >> 32)->ro = true;
	Function* entry = g_mod->getFunction("psx_case_" + g_o.entry);
	if (!entry) {
		fprintf(stderr, "psx: no case %s\n", g_o.entry.c_str());
		return 3;
	}
	// static constructors, then the case, as one concrete prologue
	Thread t;
	t.id = 0;
	t.vc[0] = 1;
	s0->th.push_back(t);
	std::vector<std::pair<u64, Function*>> ctors;
	if (auto* g = g_mod->getNamedGlobal("llvm.global_ctors"))
		if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
			for (auto& op : ca->operands()) {
				auto* cs = cast<ConstantStruct>(op.get());
				if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
					ctors.push_back({ cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f });
			}
	std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
	bool ok = true;
	for (auto& c : ctors) {
		std::vector<Val> none;
		pushFrame(*s0, infoOf(c.second), none);
		try {
			for (;;)
				step(*s0);
		} catch (PathEnd& p) {
			if (p.why != 0 || !s0->t().st.empty()) {
				ok = false;
				g_incomplete.insert("static constructor failed: " + c.second->getName().str());
				break;
			}
		}
	}
	if (ok) {
		s0->icount = 0;
		std::vector<Val> none;
		pushFrame(*s0, infoOf(entry), none);
		g_work.push_back(s0);
	}
	while (!g_work.empty()) {
		if (now() > g_deadline) {
			g_incomplete.insert("time budget exhausted");
			break;
		}
		struct rusage ru;
		if ((g_paths & 63) == 0) {
			FILE* fp = fopen("/proc/self/statm", "r");
			long a = 0, b = 0;
			if (fp) {
				if (fscanf(fp, "%ld %ld", &a, &b) != 2)
					b = 0;
				fclose(fp);
			}
			(void)ru;
			if (b * 4096L > 6L << 30) {
				g_incomplete.insert("memory budget exhausted");
				break;
			}
		}
		State* s = g_work.back();
		g_work.pop_back();
		runState(s);
		if (g_viol.size() >= g_maxViol) {
			g_incomplete.insert("stopped after " + std::to_string(g_maxViol) + " violation candidates");
			break;
		}
	}
	// functions and lines of the repository that were executed
	std::set<std::string> funcs;
	std::set<std::pair<std::string, unsigned>> lines;
	for (auto& p : g_funcs)
		for (size_t i = 0; i < p.second->hits.size(); ++i)
			if (p.second->hits[i]) {
				const DILocation* d = p.second->ins[i].I->getDebugLoc().get();
				while (d) {
					std::string fn = d->getFilename().str();
					if (!fn.empty() && fn[0] != '/')
						fn = d->getDirectory().str() + "/" + fn;
					size_t k = fn.find(g_repo);
					if (k == 0) {
						lines.insert({ fn, d->getLine() });
						if (auto* sp = d->getScope()->getSubprogram()) {
							std::string n = fn.substr(g_repo.size() + 1) + ":" + sp->getName().str();
							size_t lt = n.find('<', fn.size() - g_repo.size());
							if (lt != std::string::npos && n.find("operator") == std::string::npos)
								n = n.substr(0, lt);
							funcs.insert(n);
						}
					}
					d = d->getInlinedAt();
				}
			}
	if (const char* f = getenv("PSX_LINES")) {
		std::ofstream o(f);
		for (auto& x : lines)
			o << x.first << ":" << x.second << "\n";
	}
	u64 nfc, nfo, nfr;
	crossCheck(nfc, nfo, nfr);
	if (nfr) {
		fprintf(stderr, "psx: the solver refutes a normal-form equality\n");
		abort();
	}
	std::ostringstream o;
	o << "{\"case\":" << jstr(g_o.entry) << ",\"complete\":" << (g_incomplete.empty() ? "true" : "false") << ",\"incomplete\":[";
	bool first = true;
	for (auto& x : g_incomplete) {
		o << (first ? "" : ",") << jstr(x);
		first = false;
	}
	o << "],\"paths\":" << g_paths << ",\"paths_completed\":" << g_pathsDoneOk << ",\"states\":" << g_states << ",\"forks\":" << g_forks << ",\"instructions\":" << g_totalInstr << ",\"schedule_forks\":" << g_schedules;
	o << ",\"asserts\":" << g_assertsChecked << ",\"asserts_symbolic\":" << g_assertsSymbolic;
	o << ",\"nf_same\":" << g_nfSame << ",\"nf_proved\":" << g_nfProved << ",\"nf_confirmed\":" << nfc << ",\"nf_open\":" << nfo;
	o << ",\"asked\":" << g_sstats.asked << ",\"cache_hits\":" << g_sstats.cacheHits << ",\"queries\":" << g_sstats.queries << ",\"sat\":" << g_sstats.sat << ",\"unsat\":" << g_sstats.unsat << ",\"unknown\":" << g_sstats.unknown << ",\"fp_abstract\":" << g_sstats.fpAbstract << ",\"guessed\":" << g_sstats.guessed;
	o << ",\"solver_seconds\":" << g_sstats.seconds << ",\"solver_max_seconds\":" << g_sstats.maxSeconds << ",\"exprs\":" << exprCount() << ",\"wall\":" << now() - t0 << ",\"z3\":" << jstr(z3Version());
	o << ",\"covers\":{";
	first = true;
	for (auto& c : g_covers) {
		o << (first ? "" : ",") << jstr(c.first) << ":" << c.second;
		first = false;
	}
	o << "},\"violations\":[";
	first = true;
	auto nums = [&](const std::vector<u64>& v) {
		o << "[";
		for (size_t i = 0; i < v.size(); ++i)
			o << (i ? "," : "") << v[i];
		o << "]";
	};
	for (auto& v : g_viol) {
		o << (first ? "" : ",") << "{\"kind\":" << jstr(v.kind) << ",\"msg\":" << jstr(v.msg) << ",\"loc\":" << jstr(v.loc) << ",\"inputs\":";
		nums(v.inputs);
		o << ",\"sched\":";
		nums(std::vector<u64>(v.sched.begin(), v.sched.end()));
		o << "}";
		first = false;
	}
	o << "],\"samples\":[";
	first = true;
	for (auto& v : g_samples) {
		o << (first ? "" : ",") << "{\"inputs\":";
		nums(v.inputs);
		o << ",\"sched\":";
		nums(std::vector<u64>(v.sched.begin(), v.sched.end()));
		o << ",\"obs\":[";
		for (size_t i = 0; i < v.obs.size(); ++i)
			o << (i ? "," : "") << jstr(v.obs[i].second);
		o << "]}";
		first = false;
	}
	o << "],\"functions\":[";
	first = true;
	for (auto& f : funcs) {
		o << (first ? "" : ",") << jstr(f);
		first = false;
	}
	o << "],\"lines\":" << lines.size() << "}\n";
	if (g_o.out.empty())
		std::cout << o.str();
	else {
		std::ofstream f(g_o.out);
		f << o.str();
	}
	return 0;
}

static void* threadMain(void*)
{
	int r = realMain();
	fflush(nullptr);
	_exit(r);
}

int main(int argc, char** argv)
{
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto nxt = [&]() { return std::string(argv[++i]); };
		if (a == "--version") {
			puts("psx 1");
			return 0;
		} else if (a == "--list")
			g_o.list = true;
		else if (a == "--entry")
			g_o.entry = nxt();
		else if (a == "--out")
			g_o.out = nxt();
		else if (a == "--timeout")
			g_o.timeout = atof(nxt().c_str());
		else if (a == "--solver-ms")
			solverSetTimeout((unsigned)atoi(nxt().c_str()));
		else if (a == "--max-instr")
			g_maxInstr = strtoull(nxt().c_str(), nullptr, 10);
		else if (a == "--repo")
			g_repo = nxt();
		else if (a == "--samples")
			g_nSamples = atoi(nxt().c_str());
		else if (a == "--max-violations")
			g_maxViol = (unsigned)atoi(nxt().c_str());
		else if (a == "--verbose")
			g_verbose = true;
		else if (a == "--inputs") {
			g_useFixed = true;
			std::stringstream ss(nxt());
			std::string x;
			while (std::getline(ss, x, ','))
				g_fixedInputs.push_back(strtoull(x.c_str(), nullptr, 10));
		} else
			g_o.bc = a;
	}
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstacksize(&at, 2048ul << 20);
	pthread_t th;
	pthread_create(&th, &at, threadMain, nullptr);
	pthread_join(th, nullptr);
	return 0;
}
