#include "solver.h"
#include <algorithm>
#include <chrono>
#include <deque>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <z3++.h>

SolverStats g_sstats;
static unsigned g_timeout = 30000;
void solverSetTimeout(unsigned ms) { g_timeout = ms; }
std::string z3Version()
{
	unsigned a, b, c, d;
	Z3_get_version(&a, &b, &c, &d);
	return std::to_string(a) + "." + std::to_string(b) + "." + std::to_string(c);
}

static z3::context& ctx()
{
	static z3::context* c = nullptr;
	if (!c) {
		c = new z3::context;
	}
	return *c;
}

// One translation cache per mode (0: floating point operations uninterpreted, 1: interpreted).
struct Tr {
	int mode;
	std::unordered_map<E, z3::expr> cache, fpcache;
	std::map<std::pair<E, int>, z3::expr> low;
	std::map<std::string, z3::func_decl> ufs;
	std::vector<std::pair<uint32_t, z3::expr>> vars;
	explicit Tr(int m)
	    : mode(m)
	{
	}
	z3::expr uf(const std::string& n, int w, const std::vector<z3::expr>& args)
	{
		z3::sort_vector sv(ctx());
		z3::expr_vector av(ctx());
		std::string key = n;
		for (auto& a : args) {
			sv.push_back(a.get_sort());
			av.push_back(a);
			key += "_" + std::to_string(a.get_sort().bv_size());
		}
		key += "_" + std::to_string(w);
		auto it = ufs.find(key);
		if (it == ufs.end())
			it = ufs.emplace(key, ctx().function(key.c_str(), sv, ctx().bv_sort(w))).first;
		return it->second(av);
	}
	z3::sort fps(int w) { return w == 32 ? ctx().fpa_sort(8, 24) : ctx().fpa_sort(11, 53); }
	z3::expr bvv(u128 v, int w)
	{
		if (w <= 64)
			return ctx().bv_val((uint64_t)v, w);
		return z3::concat(ctx().bv_val((uint64_t)(v >> 64), w - 64), ctx().bv_val((uint64_t)v, 64));
	}
	z3::expr b2bv(const z3::expr& b) { return z3::ite(b, ctx().bv_val(1, 1), ctx().bv_val(0, 1)); }
	// boolean view of a width 1 expression
	z3::expr B(E e)
	{
		switch (e->op) {
		case K::CONST: return ctx().bool_val(e->v != 0);
		case K::EQ: {
			int w = e->a->w;
			if (w <= 64 && (e->a->nonlin || e->b->nonlin)) {
				int m = std::max(need(e->a), need(e->b));
				return L(e->a, m) == L(e->b, m);
			}
			return T(e->a) == T(e->b);
		}
		case K::ULT: return z3::ult(T(e->a), T(e->b));
		case K::ULE: return z3::ule(T(e->a), T(e->b));
		case K::SLT:
		case K::SLE: {
			int m = std::max(need(e->a), need(e->b));
			if (e->a->w > 64)
				m = e->a->w;
			z3::expr x = L(e->a, m), y = L(e->b, m);
			return e->op == K::SLT ? z3::slt(x, y) : z3::sle(x, y);
		}
		case K::NOT: return !B(e->a);
		case K::AND: return B(e->a) && B(e->b);
		case K::OR: return B(e->a) || B(e->b);
		case K::XOR: return B(e->a) != B(e->b);
		case K::ITE: return z3::ite(B(e->a), B(e->b), B(e->c));
		case K::FEQ:
		case K::FLT:
		case K::FLE:
		case K::FUNO:
			if (mode == 1) {
				z3::expr x = F(e->a), y = F(e->b);
				Z3_ast r;
				switch (e->op) {
				case K::FEQ: r = Z3_mk_fpa_eq(ctx(), x, y); break;
				case K::FLT: r = Z3_mk_fpa_lt(ctx(), x, y); break;
				case K::FLE: r = Z3_mk_fpa_leq(ctx(), x, y); break;
				default: return z3::expr(ctx(), Z3_mk_fpa_is_nan(ctx(), x)) || z3::expr(ctx(), Z3_mk_fpa_is_nan(ctx(), y));
				}
				return z3::expr(ctx(), r);
			}
			return T(e) == ctx().bv_val(1, 1);
		default: return T(e) == ctx().bv_val(1, 1);
		}
	}
	// number of bits that hold the signed value
	int need(E e)
	{
		if (e->w > 64)
			return e->w;
		int n = 1;
		while (n < e->w) {
			i64 lim = n >= 64 ? INT64_MAX : (((i64)1 << (n - 1)) - 1);
			if (e->shi <= lim && e->slo >= -lim - 1)
				break;
			++n;
		}
		return n;
	}
	// low m bits of e (m <= e->w), with narrow arithmetic
	z3::expr L(E e, int m)
	{
		if (m == e->w && !(e->op == K::ADD || e->op == K::MUL || e->op == K::SEXT || e->op == K::ZEXT))
			return T(e);
		if (m == e->w && e->w <= 64) {
			int n = need(e);
			if (n < m)
				return z3::sext(L(e, n), m - n);
		}
		auto key = std::make_pair(e, m);
		auto it = low.find(key);
		if (it != low.end())
			return it->second;
		z3::expr r = ctx().bool_val(true);
		if (e->w <= 64 && need(e) < m)
			r = z3::sext(L(e, need(e)), m - need(e));
		else
			switch (e->op) {
			case K::CONST: r = bvv(e->v & maskw(m), m); break;
			case K::ADD: r = L(e->a, m) + L(e->b, m); break;
			case K::MUL: r = L(e->a, m) * L(e->b, m); break;
			case K::ITE: r = z3::ite(B(e->a), L(e->b, m), L(e->c, m)); break;
			case K::SEXT:
				if (m <= e->a->w)
					r = L(e->a, m);
				else
					r = z3::sext(L(e->a, e->a->w), m - e->a->w);
				break;
			case K::ZEXT:
				if (m <= e->a->w)
					r = L(e->a, m);
				else
					r = z3::zext(L(e->a, e->a->w), m - e->a->w);
				break;
			default: r = m == e->w ? T(e) : T(e).extract(m - 1, 0); break;
			}
		low.emplace(key, r);
		return r;
	}
	z3::expr F(E e)
	{ // floating point view
		auto it = fpcache.find(e);
		if (it != fpcache.end())
			return it->second;
		z3::expr rne(ctx(), Z3_mk_fpa_rne(ctx()));
		z3::expr r = ctx().bool_val(true);
		auto mk = [&](Z3_ast a) { ctx().check_error(); r = z3::expr(ctx(), a); };
		switch (e->op) {
		case K::FADD: mk(Z3_mk_fpa_add(ctx(), rne, F(e->a), F(e->b))); break;
		case K::FSUB: mk(Z3_mk_fpa_sub(ctx(), rne, F(e->a), F(e->b))); break;
		case K::FMUL: mk(Z3_mk_fpa_mul(ctx(), rne, F(e->a), F(e->b))); break;
		case K::FDIV: mk(Z3_mk_fpa_div(ctx(), rne, F(e->a), F(e->b))); break;
		case K::FSQRT: mk(Z3_mk_fpa_sqrt(ctx(), rne, F(e->a))); break;
		case K::SITOFP: mk(Z3_mk_fpa_to_fp_signed(ctx(), rne, T(e->a), fps(e->w))); break;
		case K::UITOFP: mk(Z3_mk_fpa_to_fp_unsigned(ctx(), rne, T(e->a), fps(e->w))); break;
		case K::IFP: {
			z3::expr n(ctx(), Z3_mk_fpa_to_fp_signed(ctx(), rne, L(e->a, std::max(2, need(e->a))), fps(e->w)));
			i64 k = (i64)e->v;
			if (k) {
				z3::expr s(ctx(), Z3_mk_fpa_numeral_double(ctx(), __builtin_ldexp(1.0, (int)k), fps(e->w)));
				mk(Z3_mk_fpa_mul(ctx(), rne, n, s));
			} else
				r = n;
			break;
		}
		case K::FPCVT: mk(Z3_mk_fpa_to_fp_float(ctx(), rne, F(e->a), fps(e->w))); break;
		case K::FROUND: {
			Z3_ast m = nullptr;
			switch ((int)e->v) {
			case 0: m = Z3_mk_fpa_rtn(ctx()); break;
			case 1: m = Z3_mk_fpa_rtp(ctx()); break;
			case 2: m = Z3_mk_fpa_rtz(ctx()); break;
			case 3: m = Z3_mk_fpa_rne(ctx()); break;
			default: m = Z3_mk_fpa_rna(ctx()); break;
			}
			z3::expr rm(ctx(), m);
			mk(Z3_mk_fpa_round_to_integral(ctx(), rm, F(e->a)));
			break;
		}
		case K::ITE: r = z3::ite(B(e->a), F(e->b), F(e->c)); break;
		default: mk(Z3_mk_fpa_to_fp_bv(ctx(), T(e), fps(e->w))); break;
		}
		fpcache.emplace(e, r);
		return r;
	}
	z3::expr T(E e)
	{
		auto it = cache.find(e);
		if (it != cache.end())
			return it->second;
		z3::expr r = T0(e);
		cache.emplace(e, r);
		return r;
	}
	z3::expr T0(E e)
	{
		switch (e->op) {
		case K::CONST: return bvv(e->v, e->w);
		case K::VAR: {
			z3::expr x = ctx().bv_const(("v" + std::to_string((unsigned)e->v)).c_str(), e->w);
			vars.push_back({ (uint32_t)e->v, x });
			return x;
		}
		case K::ADD:
		case K::MUL:
			if (e->w <= 64) {
				int n = need(e);
				if (n < e->w)
					return z3::sext(L(e, n), e->w - n);
			}
			return e->op == K::ADD ? T(e->a) + T(e->b) : T(e->a) * T(e->b);
		case K::UDIV: return z3::udiv(T(e->a), T(e->b));
		case K::SDIV: return T(e->a) / T(e->b);
		case K::UREM: return z3::urem(T(e->a), T(e->b));
		case K::SREM: return z3::srem(T(e->a), T(e->b));
		case K::SHL: return z3::shl(T(e->a), T(e->b));
		case K::LSHR: return z3::lshr(T(e->a), T(e->b));
		case K::ASHR: return z3::ashr(T(e->a), T(e->b));
		case K::AND: return e->w == 1 ? b2bv(B(e)) : T(e->a) & T(e->b);
		case K::OR: return e->w == 1 ? b2bv(B(e)) : T(e->a) | T(e->b);
		case K::XOR: return e->w == 1 ? b2bv(B(e)) : T(e->a) ^ T(e->b);
		case K::NOT: return ~T(e->a);
		case K::EQ:
		case K::ULT:
		case K::ULE:
		case K::SLT:
		case K::SLE: return b2bv(B(e));
		case K::ITE: return z3::ite(B(e->a), T(e->b), T(e->c));
		case K::CONCAT: return z3::concat(T(e->a), T(e->b));
		case K::EXTRACT: return T(e->a).extract((unsigned)e->v + e->w - 1, (unsigned)e->v);
		case K::ZEXT: return z3::zext(T(e->a), e->w - e->a->w);
		case K::SEXT: return z3::sext(T(e->a), e->w - e->a->w);
		case K::POPCNT: {
			z3::expr s = bvv(0, e->w), x = T(e->a);
			for (int i = 0; i < e->a->w; ++i)
				s = s + z3::zext(x.extract(i, i), e->w - 1);
			return s;
		}
		case K::CTLZ: {
			z3::expr s = bvv(e->w, e->w), x = T(e->a);
			for (int i = 0; i < e->w; ++i)
				s = z3::ite(x.extract(i, i) == ctx().bv_val(1, 1), bvv(e->w - 1 - i, e->w), s);
			return s;
		}
		case K::CTTZ: {
			z3::expr s = bvv(e->w, e->w), x = T(e->a);
			for (int i = e->w - 1; i >= 0; --i)
				s = z3::ite(x.extract(i, i) == ctx().bv_val(1, 1), bvv(i, e->w), s);
			return s;
		}
		case K::BSWAP: {
			z3::expr x = T(e->a);
			z3::expr r = x.extract(7, 0);
			for (int i = 1; i < e->w / 8; ++i)
				r = z3::concat(r, x.extract(8 * i + 7, 8 * i));
			return r;
		}
		default: break;
		}
		// floating point, bit pattern wanted
		if (mode == 1) {
			switch (e->op) {
			case K::FEQ:
			case K::FLT:
			case K::FLE:
			case K::FUNO: return b2bv(B(e));
			case K::FPTOSI: {
				z3::expr rz(ctx(), Z3_mk_fpa_rtz(ctx()));
				return z3::expr(ctx(), Z3_mk_fpa_to_sbv(ctx(), rz, F(e->a), e->w));
			}
			case K::FPTOUI: {
				z3::expr rz(ctx(), Z3_mk_fpa_rtz(ctx()));
				return z3::expr(ctx(), Z3_mk_fpa_to_ubv(ctx(), rz, F(e->a), e->w));
			}
			case K::FREM:
			case K::FUN: break;
			default: return z3::expr(ctx(), Z3_mk_fpa_to_ieee_bv(ctx(), F(e)));
			}
		}
		static const char* n[] = { "FADD", "FSUB", "FMUL", "FDIV", "FREM", "FSQRT", "FEQ", "FLT", "FLE", "FUNO", "IFP", "SITOFP", "UITOFP", "FPTOSI", "FPTOUI", "FPCVT", "FROUND", "FUN" };
		std::vector<z3::expr> args;
		args.push_back(T(e->a));
		if (e->b)
			args.push_back(T(e->b));
		std::string nm = std::string("uf_") + n[(int)e->op - (int)K::FADD];
		if (e->op == K::IFP || e->op == K::FROUND || e->op == K::FUN)
			nm += "_" + std::to_string((long long)(i64)e->v);
		return uf(nm, e->w, args);
	}
};

static Tr& tr(int mode)
{
	static Tr* t[2] = { nullptr, nullptr };
	// keep the translation caches from growing without bound
	if (t[mode] && t[mode]->cache.size() > 400000) {
		delete t[mode];
		t[mode] = nullptr;
	}
	if (!t[mode])
		t[mode] = new Tr(mode);
	return *t[mode];
}

static Sat runZ3(const std::vector<E>& cs, const VarSet* const* /*unused*/, const std::vector<uint32_t>& vars, int mode, Model& out, unsigned timeout)
{
	Tr& t = tr(mode);
	auto t0 = std::chrono::steady_clock::now();
	Sat res = Sat::UNKNOWN;
	try {
		bool fpq = mode == 1;
		bool anyUF = false;
		for (E c : cs)
			if (c->fp)
				anyUF = true;
		z3::solver s = (fpq || anyUF) ? z3::solver(ctx()) : z3::solver(ctx(), "QF_BV");
		z3::params p(ctx());
		p.set("timeout", timeout);
		s.set(p);
		for (E c : cs)
			s.add(t.B(c));
		for (uint32_t v : vars) {
			E e = g_vars[v].e;
			z3::expr x = t.T(e);
			if (e->w <= 64) {
				if (e->slo >= 0 || e->shi < 0 || e->ulo > 0 || e->uhi < (u64)maskw(e->w)) {
					if (e->ulo > 0)
						s.add(z3::uge(x, t.bvv(e->ulo, e->w)));
					if (e->uhi < (u64)maskw(e->w))
						s.add(z3::ule(x, t.bvv(e->uhi, e->w)));
				}
				i64 mn = (i64)sextw((u128)1 << (e->w - 1), e->w), mx = (i64)(maskw(e->w) >> 1);
				if (e->slo > mn)
					s.add(x >= t.bvv((u64)e->slo, e->w));
				if (e->shi < mx)
					s.add(x <= t.bvv((u64)e->shi, e->w));
			}
		}
		z3::check_result r = s.check();
		if (r == z3::sat) {
			res = Sat::YES;
			z3::model m = s.get_model();
			for (uint32_t v : vars) {
				E e = g_vars[v].e;
				z3::expr x = m.eval(t.T(e), true);
				u128 val;
				if (e->w <= 64)
					val = x.get_numeral_uint64();
				else {
					val = ((u128)m.eval(t.T(e).extract(e->w - 1, 64), true).get_numeral_uint64() << 64) | m.eval(t.T(e).extract(63, 0), true).get_numeral_uint64();
				}
				out.set(v, val);
			}
		} else if (r == z3::unsat)
			res = Sat::NO;
	} catch (z3::exception& ex) {
		fprintf(stderr, "z3: %s\n", ex.msg());
		res = Sat::UNKNOWN;
	}
	double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	g_sstats.seconds += dt;
	if (dt > g_sstats.maxSeconds)
		g_sstats.maxSeconds = dt;
	g_sstats.queries++;
	static const char* slow = getenv("PSX_SLOW");
	if (slow && dt > atof(slow)) {
		fprintf(stderr, "slow query %.1fs mode %d res %d:\n", dt, mode, (int)res);
		for (E c : cs)
			fprintf(stderr, "   %s\n", toStr(c, 8).c_str());
	}
	return res;
}

struct VecHash {
	size_t operator()(const std::vector<uint32_t>& v) const
	{
		u64 h = 1469598103934665603ull;
		for (uint32_t x : v)
			h = (h ^ x) * 1099511628211ull;
		return (size_t)h;
	}
};
static std::unordered_map<std::vector<uint32_t>, std::pair<Sat, std::vector<std::pair<uint32_t, u128>>>, VecHash> g_cache;
static std::deque<Model> g_recent;

static bool inRange(uint32_t v, u128 x)
{
	E e = g_vars[v].e;
	if (e->w > 64)
		return true;
	u64 u = (u64)(x & maskw(e->w));
	i64 s = (i64)sextw(u, e->w);
	return u >= e->ulo && u <= e->uhi && s >= e->slo && s <= e->shi;
}

// Order reasoning ahead of the SMT solver: unsatisfiability of `extra` from the chains of <, <= and == in the
// path condition (a decision procedure for conjunctions of order literals over the same terms).
namespace {
struct Lit {
	int kind; // 0 none, 1 a<b, 2 a<=b, 3 a==b, 4 a!=b
	bool sgn;
	E a, b;
};
Lit litOf(E c)
{
	switch (c->op) {
	case K::ULT: return Lit { 1, false, c->a, c->b };
	case K::ULE: return Lit { 2, false, c->a, c->b };
	case K::SLT: return Lit { 1, true, c->a, c->b };
	case K::SLE: return Lit { 2, true, c->a, c->b };
	case K::EQ: return Lit { 3, false, c->a, c->b };
	default: break;
	}
	E n = mkNot(c);
	switch (n->op) {
	case K::ULT: return Lit { 2, false, n->b, n->a };
	case K::ULE: return Lit { 1, false, n->b, n->a };
	case K::SLT: return Lit { 2, true, n->b, n->a };
	case K::SLE: return Lit { 1, true, n->b, n->a };
	case K::EQ: return Lit { 4, false, n->a, n->b };
	default: break;
	}
	return Lit { 0, false, nullptr, nullptr };
}
struct Edge {
	E from, to;
	bool strict;
};
// 0 no path, 1 from <= to, 2 from < to
int reach(const std::vector<Edge>& g, E from, E to)
{
	std::vector<std::pair<E, int>> best; // node -> 1 or 2
	std::vector<std::pair<E, int>> work(1, { from, 1 });
	best.push_back({ from, 1 });
	while (!work.empty()) {
		auto w = work.back();
		work.pop_back();
		for (const Edge& e : g) {
			if (e.from != w.first)
				continue;
			int k = e.strict ? 2 : w.second;
			bool add = true;
			for (auto& x : best)
				if (x.first == e.to) {
					add = x.second < k;
					if (add)
						x.second = k;
					goto found;
				}
			best.push_back({ e.to, k });
		found:
			if (add) {
				if (e.to == to && k == 2)
					return 2;
				work.push_back({ e.to, k });
			}
		}
	}
	for (auto& x : best)
		if (x.first == to)
			return x.second;
	return 0;
}
bool orderUnsat(const std::vector<E>& pc, E extra)
{
	Lit q = litOf(extra);
	if (!q.kind)
		return false;
	std::vector<Edge> g[2];
	std::vector<std::pair<E, E>> ne;
	for (E c : pc) {
		Lit l = litOf(c);
		if (!l.kind)
			continue;
		if (l.kind == 4)
			ne.push_back({ l.a, l.b });
		else if (l.kind == 3) {
			for (int k = 0; k < 2; ++k) {
				g[k].push_back({ l.a, l.b, false });
				g[k].push_back({ l.b, l.a, false });
			}
		} else
			g[l.sgn].push_back({ l.a, l.b, l.kind == 1 });
	}
	for (auto& x : ne)
		for (auto& gg : g)
			for (Edge& e : gg)
				if ((e.from == x.first && e.to == x.second) || (e.from == x.second && e.to == x.first))
					e.strict = true;
	switch (q.kind) {
	case 1: return reach(g[q.sgn], q.b, q.a) > 0;
	case 2: return reach(g[q.sgn], q.b, q.a) == 2;
	case 3:
		for (auto& gg : g)
			if (reach(gg, q.a, q.b) == 2 || reach(gg, q.b, q.a) == 2)
				return true;
		for (auto& x : ne)
			for (auto& gg : g)
				if (reach(gg, q.a, x.first) == 1 && reach(gg, x.first, q.a) == 1 && reach(gg, q.b, x.second) == 1 && reach(gg, x.second, q.b) == 1)
					return true;
		return false;
	default:
		for (auto& gg : g)
			if (reach(gg, q.a, q.b) && reach(gg, q.b, q.a))
				return true;
		return false;
	}
}
}

static E simpRec(const std::vector<E>& pc, E e, std::unordered_map<E, E>& memo)
{
	if (!e->hasIte)
		return e;
	auto it = memo.find(e);
	if (it != memo.end())
		return it->second;
	if (memo.size() > 400)
		return e;
	memo[e] = e;
	E r = e;
	if (e->op == K::ITE) {
		E c = simpRec(pc, e->a, memo);
		int k = -1;
		if (c->isConst())
			k = c->v != 0;
		else {
			E n = mkNot(c);
			for (E x : pc)
				if (x == c) {
					k = 1;
					break;
				} else if (x == n) {
					k = 0;
					break;
				}
			if (k < 0 && orderUnsat(pc, c))
				k = 0;
			else if (k < 0 && orderUnsat(pc, n))
				k = 1;
		}
		if (k == 1)
			r = simpRec(pc, e->b, memo);
		else if (k == 0)
			r = simpRec(pc, e->c, memo);
		else
			r = mkIte(c, simpRec(pc, e->b, memo), simpRec(pc, e->c, memo));
	} else {
		E a = e->a ? simpRec(pc, e->a, memo) : nullptr;
		E b = e->b ? simpRec(pc, e->b, memo) : nullptr;
		E c = e->c ? simpRec(pc, e->c, memo) : nullptr;
		r = rebuild(e, a, b, c);
	}
	memo[e] = r;
	return r;
}
bool orderSettles(const std::vector<E>& pc, E c, int& k)
{
	if (pc.empty())
		return false;
	if (orderUnsat(pc, c))
		k = 0;
	else if (orderUnsat(pc, mkNot(c)))
		k = 1;
	return k >= 0;
}
E simplifyUnder(const std::vector<E>& pc, E e)
{
	if (!e->hasIte || pc.empty())
		return e;
	std::unordered_map<E, E> memo;
	return simpRec(pc, e, memo);
}

// When the solver gives no answer: an assignment near the current one that the evaluator certifies (only ever
// turns "no answer" into "satisfiable"; never the reverse).
static bool guess(const std::vector<E>& cs, const std::vector<uint32_t>& vars, bool fp, const Model& cur, Model& out)
{
	static u64 state = 0x9E3779B97F4A7C15ull;
	auto rnd = [&] {
		state ^= state << 13;
		state ^= state >> 7;
		state ^= state << 17;
		return state;
	};
	auto t0 = std::chrono::steady_clock::now();
	for (int k = 0; k < 120 && !vars.empty(); ++k) {
		if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 1.0)
			return false;
		Model m = cur;
		size_t n = k % 3 == 0 ? vars.size() : 1 + rnd() % std::min<size_t>(vars.size(), 4);
		for (size_t i = 0; i < n; ++i) {
			uint32_t v = n == vars.size() ? vars[i] : vars[rnd() % vars.size()];
			E e = g_vars[v].e;
			if (e->w > 64)
				continue;
			u64 x = rnd() >> (rnd() % 64);
			if (fp && (e->w == 64 || e->w == 32)) {
				double d = (double)(int)(rnd() % 41) - 20;
				if (rnd() % 3 == 0)
					d /= 8;
				if (rnd() % 3 == 0)
					d *= 1.37;
				float f = (float)d;
				uint32_t y;
				if (e->w == 64)
					memcpy(&x, &d, 8);
				else {
					memcpy(&y, &f, 4);
					x = y;
				}
			} else if (e->uhi - e->ulo < 1000000)
				x = e->ulo + x % (e->uhi - e->ulo + 1);
			x &= (u64)maskw(e->w);
			if (inRange(v, x))
				m.set(v, x);
		}
		bool ok = true;
		for (size_t i = 0; ok && i < cs.size(); ++i)
			ok = evalE(cs[i], m);
		if (ok) {
			out = m;
			return true;
		}
	}
	return false;
}

Sat solveWith(const std::vector<E>& pc, E extra, const Model& cur, Model& out)
{
	g_sstats.asked++;
	if (extra->isConst()) {
		if (!extra->v)
			return Sat::NO;
		out = cur;
		return Sat::YES;
	}
	if (!pc.empty() && orderUnsat(pc, extra)) {
		g_sstats.queries++;
		g_sstats.unsat++;
		return Sat::NO;
	}
	// independence slicing
	std::vector<char> inSet(g_vars.size(), 0);
	std::vector<char> taken(pc.size(), 0);
	std::vector<E> cs(1, extra);
	for (uint32_t v : extra->vars->v)
		inSet[v] = 1;
	bool changed = true;
	while (changed) {
		changed = false;
		for (size_t i = 0; i < pc.size(); ++i) {
			if (taken[i])
				continue;
			bool hit = false;
			for (uint32_t v : pc[i]->vars->v)
				if (inSet[v]) {
					hit = true;
					break;
				}
			if (!hit)
				continue;
			taken[i] = 1;
			changed = true;
			cs.push_back(pc[i]);
			for (uint32_t v : pc[i]->vars->v)
				inSet[v] = 1;
		}
	}
	std::vector<uint32_t> vars;
	for (size_t i = 0; i < inSet.size(); ++i)
		if (inSet[i])
			vars.push_back((uint32_t)i);

	std::vector<uint32_t> key;
	for (E c : cs)
		key.push_back(c->id);
	std::sort(key.begin(), key.end());
	key.erase(std::unique(key.begin(), key.end()), key.end());
	auto it = g_cache.find(key);
	if (it != g_cache.end()) {
		g_sstats.cacheHits++;
		if (it->second.first == Sat::YES) {
			out = cur;
			for (auto& p : it->second.second)
				out.set(p.first, p.second);
		}
		return it->second.first;
	}
	// recent models
	for (const Model& m : g_recent) {
		bool ok = true;
		for (uint32_t v : vars)
			if (v >= m.val.size() || !inRange(v, m.val[v])) {
				ok = false;
				break;
			}
		for (size_t i = 0; ok && i < cs.size(); ++i)
			if (!evalE(cs[i], m))
				ok = false;
		if (ok) {
			g_sstats.cacheHits++;
			out = cur;
			for (uint32_t v : vars)
				out.set(v, m.get(v));
			return Sat::YES;
		}
	}
	bool fp = false;
	for (E c : cs)
		fp |= c->fp;
	out = cur;
	Sat r;
	if (!fp)
		r = runZ3(cs, nullptr, vars, 0, out, g_timeout);
	else {
		r = runZ3(cs, nullptr, vars, 0, out, g_timeout / 2);
		if (r == Sat::NO)
			g_sstats.fpAbstract++;
		else {
			bool ok = r == Sat::YES;
			for (size_t i = 0; ok && i < cs.size(); ++i)
				if (!evalE(cs[i], out))
					ok = false;
			if (ok)
				g_sstats.fpAbstract++;
			else {
				out = cur;
				r = runZ3(cs, nullptr, vars, 1, out, g_timeout);
			}
		}
	}
	if (r == Sat::UNKNOWN && guess(cs, vars, fp, cur, out)) {
		g_sstats.guessed++;
		r = Sat::YES;
	}
	if (r == Sat::YES) {
		// the model must satisfy the constraints under our own evaluator as well
		for (E c : cs)
			if (!evalE(c, out)) {
				if (!c->fp) {
					fprintf(stderr, "psx: solver model disagrees with evaluator: %s\n", toStr(c, 10).c_str());
					abort();
				}
				r = Sat::UNKNOWN;
			}
	}
	if (r == Sat::YES) {
		g_sstats.sat++;
		g_recent.push_front(out);
		if (g_recent.size() > 12)
			g_recent.pop_back();
	} else if (r == Sat::NO)
		g_sstats.unsat++;
	else
		g_sstats.unknown++;
	std::vector<std::pair<uint32_t, u128>> mv;
	if (r == Sat::YES)
		for (uint32_t v : vars)
			mv.push_back({ v, out.get(v) });
	g_cache.emplace(std::move(key), std::make_pair(r, std::move(mv)));
	return r;
}

void crossCheck(u64& confirmed, u64& open, u64& refuted)
{
	confirmed = open = refuted = 0;
	auto t0 = std::chrono::steady_clock::now();
	for (auto& pr : g_nfPairs) {
		if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 3)
			break;
		Tr& t = tr(0);
		try {
			z3::solver s(ctx(), "QF_BV");
			z3::params p(ctx());
			p.set("timeout", 250u);
			s.set(p);
			s.add(t.T(pr.first) != t.T(pr.second));
			const VarSet* vs[2] = { pr.first->vars, pr.second->vars };
			for (auto* v : vs)
				for (uint32_t i : v->v) {
					E e = g_vars[i].e;
					if (e->w > 64)
						continue;
					s.add(z3::uge(t.T(e), t.bvv(e->ulo, e->w)) && z3::ule(t.T(e), t.bvv(e->uhi, e->w)));
					s.add(t.T(e) >= t.bvv((u64)e->slo, e->w) && t.T(e) <= t.bvv((u64)e->shi, e->w));
				}
			z3::check_result r = s.check();
			if (r == z3::unsat)
				++confirmed;
			else if (r == z3::sat)
				++refuted;
			else
				++open;
		} catch (z3::exception&) {
			++open;
		}
	}
}
