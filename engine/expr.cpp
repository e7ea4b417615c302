#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <unordered_map>

std::vector<VarInfo> g_vars;

double bits2d(u64 b) { double d; memcpy(&d, &b, 8); return d; }
u64 d2bits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
float bits2f(u64 b) { uint32_t x = (uint32_t)b; float d; memcpy(&d, &x, 4); return d; }
u64 f2bits(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }

static double bitsToD(u128 b, int w) { return w == 32 ? (double)bits2f((u64)b) : bits2d((u64)b); }
static u128 dToBits(double d, int w) { return w == 32 ? f2bits((float)d) : d2bits(d); }

struct FunDef { const char* name; int nargs; };
static const FunDef kFuns[] = { { "exp", 1 }, { "log", 1 }, { "sin", 1 }, { "cos", 1 }, { "tan", 1 }, { "pow", 2 },
	{ "atan", 1 }, { "atan2", 2 }, { "acos", 1 }, { "asin", 1 }, { "sinh", 1 }, { "cosh", 1 }, { "tanh", 1 }, { "hypot", 2 }, { "log10", 1 },
	{ "log2", 1 }, { "exp2", 1 }, { "cbrt", 1 }, { "fmod", 2 }, { "expm1", 1 }, { "log1p", 1 }, { "acosh", 1 }, { "asinh", 1 }, { "atanh", 1 }, {"tgamma",1}, {"lgamma",1}, {"erf",1}, {"erfc",1}, {"lround",1}, { "psx_hypot2", 2 } };
int funCode(const std::string& n, int& nargs)
{
	for (size_t i = 0; i < sizeof(kFuns) / sizeof(kFuns[0]); ++i)
		if (n == kFuns[i].name) {
			nargs = kFuns[i].nargs;
			return (int)i;
		}
	return -1;
}
const char* funName(int c) { return kFuns[c].name; }
double funEval(int code, double a, double b)
{
	switch (code) {
	case 0: return exp(a); case 1: return log(a); case 2: return sin(a); case 3: return cos(a); case 4: return tan(a);
	case 5: return pow(a, b); case 6: return atan(a); case 7: return atan2(a, b); case 8: return acos(a); case 9: return asin(a);
	case 10: return sinh(a); case 11: return cosh(a); case 12: return tanh(a); case 13: return hypot(a, b); case 14: return log10(a);
	case 15: return log2(a); case 16: return exp2(a); case 17: return cbrt(a); case 18: return fmod(a, b); case 19: return expm1(a); case 20: return log1p(a);
	case 21: return acosh(a); case 22: return asinh(a); case 23: return atanh(a); case 24: return tgamma(a); case 25: return lgamma(a); case 26: return erf(a); case 27: return erfc(a); case 29: return hypot(a, b);
	}
	abort();
}

// ---------------------------------------------------------------- var sets
static const VarSet* emptySet()
{
	static VarSet* s = new VarSet;
	return s;
}
static std::map<std::vector<uint32_t>, const VarSet*> g_sets;
static std::unordered_map<u64, const VarSet*> g_unions;
static std::unordered_map<const VarSet*, uint32_t> g_setIds;
static const VarSet* internSet(std::vector<uint32_t> v)
{
	if (v.empty())
		return emptySet();
	auto it = g_sets.find(v);
	if (it != g_sets.end())
		return it->second;
	VarSet* s = new VarSet;
	s->v = v;
	g_sets[v] = s;
	return s;
}
static uint32_t setId(const VarSet* s)
{
	auto it = g_setIds.find(s);
	if (it != g_setIds.end())
		return it->second;
	uint32_t n = (uint32_t)g_setIds.size();
	g_setIds[s] = n;
	return n;
}
static const VarSet* unite(const VarSet* a, const VarSet* b)
{
	if (a == b || b->v.empty())
		return a;
	if (a->v.empty())
		return b;
	u64 key = ((u64)setId(a) << 32) | setId(b);
	auto it = g_unions.find(key);
	if (it != g_unions.end())
		return it->second;
	std::vector<uint32_t> r;
	std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
	const VarSet* s = internSet(r);
	g_unions[key] = s;
	return s;
}

// ---------------------------------------------------------------- interning
struct Key {
	K op;
	uint8_t w;
	E a, b, c;
	u128 v;
};
static std::vector<Expr*> g_tab;
static size_t g_n = 0;
size_t exprCount() { return g_n; }

static inline u64 mix(u64 h, u64 x)
{
	h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdULL;
	return h ^ (h >> 29);
}
static inline u64 hashKey(K op, uint8_t w, E a, E b, E c, u128 v)
{
	u64 h = ((u64)op << 8) | w;
	h = mix(h, a ? a->id + 1 : 0);
	h = mix(h, b ? b->id + 1 : 0);
	h = mix(h, c ? c->id + 1 : 0);
	h = mix(h, (u64)v);
	h = mix(h, (u64)(v >> 64));
	return h;
}
static char* g_arena = nullptr;
static size_t g_arenaLeft = 0;
static void bounds(Expr* e);

static E intern(K op, int w, E a, E b, E c, u128 v)
{
	if (g_tab.empty())
		g_tab.assign(1 << 16, nullptr);
	u64 h = hashKey(op, w, a, b, c, v);
	size_t mask = g_tab.size() - 1;
	size_t i = h & mask;
	while (g_tab[i]) {
		Expr* x = g_tab[i];
		if (x->op == op && x->w == w && x->a == a && x->b == b && x->c == c && x->v == v)
			return x;
		i = (i + 1) & mask;
	}
	if (g_arenaLeft < sizeof(Expr)) {
		g_arenaLeft = 1 << 20;
		g_arena = (char*)malloc(g_arenaLeft);
	}
	Expr* e = (Expr*)g_arena;
	g_arena += (sizeof(Expr) + 15) & ~15ul;
	g_arenaLeft -= (sizeof(Expr) + 15) & ~15ul;
	if (g_arenaLeft > (1 << 21))
		g_arenaLeft = 0;
	e->op = op;
	e->w = w;
	e->id = (uint32_t)g_n++;
	e->a = a;
	e->b = b;
	e->c = c;
	e->v = v;
	e->epoch = 0;
	e->ev = 0;
	e->fp = (op >= K::FADD) || (a && a->fp) || (b && b->fp) || (c && c->fp);
	e->hasIte = op == K::ITE || (a && a->hasIte) || (b && b->hasIte) || (c && c->hasIte);
	e->nonlin = (op == K::MUL && !b->isConst()) || (a && a->nonlin) || (b && b->nonlin) || (c && c->nonlin);
	const VarSet* s = emptySet();
	if (a) s = unite(s, a->vars);
	if (b) s = unite(s, b->vars);
	if (c) s = unite(s, c->vars);
	e->vars = s;
	bounds(e);
	g_tab[i] = e;
	if (g_n * 2 > g_tab.size()) {
		std::vector<Expr*> nt(g_tab.size() * 2, nullptr);
		size_t m2 = nt.size() - 1;
		for (Expr* x : g_tab)
			if (x) {
				size_t j = hashKey(x->op, x->w, x->a, x->b, x->c, x->v) & m2;
				while (nt[j])
					j = (j + 1) & m2;
				nt[j] = x;
			}
		g_tab.swap(nt);
	}
	return e;
}

// ---------------------------------------------------------------- bounds
static void fromU(Expr* e)
{ // tighten signed from unsigned and vice versa
	int w = e->w;
	if (w > 64)
		return;
	u64 half = (u64)1 << (w - 1);
	if (e->uhi < half) {
		e->slo = std::max(e->slo, (i64)e->ulo);
		e->shi = std::min(e->shi, (i64)e->uhi);
	} else if (e->ulo >= half) {
		i64 l = (i64)sextw(e->ulo, w), h = (i64)sextw(e->uhi, w);
		e->slo = std::max(e->slo, l);
		e->shi = std::min(e->shi, h);
	}
	if (e->slo >= 0) {
		e->ulo = std::max(e->ulo, (u64)e->slo);
		e->uhi = std::min(e->uhi, (u64)e->shi);
	} else if (e->shi < 0) {
		u64 l = (u64)e->slo & (u64)maskw(w), h = (u64)e->shi & (u64)maskw(w);
		e->ulo = std::max(e->ulo, l);
		e->uhi = std::min(e->uhi, h);
	}
	if (e->ulo > e->uhi || e->slo > e->shi) { // should not happen; be safe
		e->ulo = 0;
		e->uhi = (u64)maskw(w);
		e->slo = (i64)sextw((u128)1 << (w - 1), w);
		e->shi = (i64)(maskw(w) >> 1);
	}
}
static void setU(Expr* e, i128 lo, i128 hi)
{
	u128 m = maskw(e->w);
	if (lo >= 0 && (u128)hi <= m) {
		e->ulo = std::max(e->ulo, (u64)lo);
		e->uhi = std::min(e->uhi, (u64)hi);
	}
}
static void setS(Expr* e, i128 lo, i128 hi)
{
	i128 mn = sextw((u128)1 << (e->w - 1), e->w), mx = (i128)(maskw(e->w) >> 1);
	if (lo >= mn && hi <= mx) {
		e->slo = std::max(e->slo, (i64)lo);
		e->shi = std::min(e->shi, (i64)hi);
	}
}
static void bounds(Expr* e)
{
	int w = e->w;
	if (w > 64) {
		e->ulo = 0;
		e->uhi = ~0ull;
		e->slo = INT64_MIN;
		e->shi = INT64_MAX;
		return;
	}
	e->ulo = 0;
	e->uhi = (u64)maskw(w);
	e->slo = (i64)sextw((u128)1 << (w - 1), w);
	e->shi = (i64)(maskw(w) >> 1);
	E a = e->a, b = e->b;
	switch (e->op) {
	case K::CONST:
		e->ulo = e->uhi = (u64)e->v;
		e->slo = e->shi = (i64)sextw(e->v, w);
		return;
	case K::ADD: {
		i128 l = (i128)a->slo + b->slo, h = (i128)a->shi + b->shi;
		setS(e, l, h);
		l = (i128)a->ulo + b->ulo;
		h = (i128)a->uhi + b->uhi;
		setU(e, l, h);
		i128 M = (i128)1 << w;
		if (l >= M && h >= M)
			setU(e, l - M, h - M);
		// mixed: a unsigned, b signed
		l = (i128)a->ulo + b->slo;
		h = (i128)a->uhi + b->shi;
		setU(e, l, h);
		l = (i128)a->slo + b->ulo;
		h = (i128)a->shi + b->uhi;
		setU(e, l, h);
		break;
	}
	case K::MUL: {
		if (a->uhi < ((u64)1 << 62) && b->uhi < ((u64)1 << 62))
			setU(e, (i128)a->ulo * b->ulo, (i128)a->uhi * b->uhi);
		i128 p[4] = { (i128)a->slo * b->slo, (i128)a->slo * b->shi, (i128)a->shi * b->slo, (i128)a->shi * b->shi };
		setS(e, *std::min_element(p, p + 4), *std::max_element(p, p + 4));
		break;
	}
	case K::UDIV:
		if (b->ulo > 0)
			setU(e, a->ulo / b->uhi, a->uhi / b->ulo);
		break;
	case K::UREM:
		if (b->ulo > 0)
			setU(e, 0, std::min(a->uhi, b->uhi - 1));
		break;
	case K::SDIV:
		if (b->slo > 0) {
			i128 p[4] = { (i128)a->slo / b->slo, (i128)a->slo / b->shi, (i128)a->shi / b->slo, (i128)a->shi / b->shi };
			setS(e, *std::min_element(p, p + 4), *std::max_element(p, p + 4));
		}
		break;
	case K::SREM:
		if (b->slo > 0) {
			i128 m = (i128)b->shi - 1;
			i128 l = a->slo < 0 ? std::max<i128>(-m, a->slo) : 0, h = a->shi > 0 ? std::min<i128>(m, a->shi) : 0;
			setS(e, l, h);
		}
		break;
	case K::SHL:
		if (b->isConst() && b->cv() < (u64)w) {
			i128 f = (i128)1 << b->cv();
			if (a->uhi < ((u64)1 << 62) && b->cv() < 62)
				setU(e, (i128)a->ulo * f, (i128)a->uhi * f);
			if (b->cv() < 62)
				setS(e, (i128)a->slo * f, (i128)a->shi * f);
		}
		break;
	case K::LSHR:
		if (b->isConst() && b->cv() < (u64)w)
			setU(e, a->ulo >> b->cv(), a->uhi >> b->cv());
		else
			setU(e, 0, a->uhi);
		break;
	case K::ASHR:
		if (b->isConst() && b->cv() < (u64)w)
			setS(e, a->slo >> b->cv(), a->shi >> b->cv());
		break;
	case K::AND: setU(e, 0, std::min(a->uhi, b->uhi)); break;
	case K::OR: {
		u64 m = a->uhi | b->uhi;
		int n = m ? 64 - __builtin_clzll(m) : 0;
		setU(e, std::max(a->ulo, b->ulo), n >= 64 ? (i128)~0ull : (i128)(((u64)1 << n) - 1));
		break;
	}
	case K::XOR: {
		u64 m = a->uhi | b->uhi;
		int n = m ? 64 - __builtin_clzll(m) : 0;
		setU(e, 0, n >= 64 ? (i128)~0ull : (i128)(((u64)1 << n) - 1));
		break;
	}
	case K::ITE: {
		E f = e->c;
		setU(e, std::min(b->ulo, f->ulo), std::max(b->uhi, f->uhi));
		setS(e, std::min(b->slo, f->slo), std::max(b->shi, f->shi));
		break;
	}
	case K::ZEXT: setU(e, a->ulo, a->uhi); break;
	case K::SEXT: setS(e, a->slo, a->shi); break;
	case K::EXTRACT:
		if (a->w <= 64 && e->v == 0) {
			setU(e, a->ulo, a->uhi);
			setS(e, a->slo, a->shi);
		} else if (a->w <= 64) {
			int s = (int)e->v;
			if (((u128)a->uhi >> s) <= maskw(w))
				setU(e, a->ulo >> s, a->uhi >> s);
		}
		break;
	case K::CONCAT:
		setU(e, ((i128)a->ulo << b->w) + b->ulo, ((i128)a->uhi << b->w) + b->uhi);
		break;
	case K::POPCNT: setU(e, 0, a->w); break;
	case K::CTLZ:
	case K::CTTZ: setU(e, 0, a->w); break;
	default: break;
	}
	fromU(e);
}

// ---------------------------------------------------------------- folding
u128 foldOp(const Expr* e, u128 a, u128 b, u128 c)
{
	int w = e->w;
	u128 m = maskw(w);
	int aw = e->a ? e->a->w : 0;
	switch (e->op) {
	case K::CONST: return e->v;
	case K::VAR: abort();
	case K::ADD: return (a + b) & m;
	case K::MUL: return (a * b) & m;
	case K::UDIV: return b ? a / b : m;
	case K::UREM: return b ? a % b : a;
	case K::SDIV: {
		i128 x = sextw(a, w), y = sextw(b, w);
		if (y == 0)
			return x < 0 ? 1 : m;
		if (y == -1)
			return (u128)(-(u128)x) & m;
		return (u128)(x / y) & m;
	}
	case K::SREM: {
		i128 x = sextw(a, w), y = sextw(b, w);
		if (y == 0)
			return a;
		if (y == -1)
			return 0;
		return (u128)(x % y) & m;
	}
	case K::SHL: return b >= (u128)w ? 0 : (a << (int)b) & m;
	case K::LSHR: return b >= (u128)w ? 0 : (a >> (int)b);
	case K::ASHR: {
		i128 x = sextw(a, w);
		int s = b >= (u128)w ? w - 1 : (int)b;
		return (u128)(x >> s) & m;
	}
	case K::AND: return a & b;
	case K::OR: return a | b;
	case K::XOR: return a ^ b;
	case K::NOT: return ~a & m;
	case K::EQ: return a == b;
	case K::ULT: return a < b;
	case K::ULE: return a <= b;
	case K::SLT: return sextw(a, aw) < sextw(b, aw);
	case K::SLE: return sextw(a, aw) <= sextw(b, aw);
	case K::ITE: return a ? b : c;
	case K::CONCAT: return ((a << e->b->w) | b) & m;
	case K::EXTRACT: return (a >> (int)e->v) & m;
	case K::ZEXT: return a;
	case K::SEXT: return (u128)sextw(a, aw) & m;
	case K::POPCNT: {
		int n = 0;
		for (u128 x = a; x; x &= x - 1)
			++n;
		return n;
	}
	case K::CTLZ: {
		int n = 0;
		for (int i = aw - 1; i >= 0 && !((a >> i) & 1); --i)
			++n;
		return n;
	}
	case K::CTTZ: {
		int n = 0;
		for (int i = 0; i < aw && !((a >> i) & 1); ++i)
			++n;
		return n;
	}
	case K::BSWAP: {
		u128 r = 0;
		for (int i = 0; i < w / 8; ++i)
			r |= ((a >> (8 * i)) & 0xff) << (w - 8 - 8 * i);
		return r;
	}
	case K::FADD: return w == 32 ? f2bits(bits2f(a) + bits2f(b)) : d2bits(bits2d(a) + bits2d(b));
	case K::FSUB: return w == 32 ? f2bits(bits2f(a) - bits2f(b)) : d2bits(bits2d(a) - bits2d(b));
	case K::FMUL: return w == 32 ? f2bits(bits2f(a) * bits2f(b)) : d2bits(bits2d(a) * bits2d(b));
	case K::FDIV: return w == 32 ? f2bits(bits2f(a) / bits2f(b)) : d2bits(bits2d(a) / bits2d(b));
	case K::FREM: return w == 32 ? f2bits(fmodf(bits2f(a), bits2f(b))) : d2bits(fmod(bits2d(a), bits2d(b)));
	case K::FSQRT: return w == 32 ? f2bits(sqrtf(bits2f(a))) : d2bits(sqrt(bits2d(a)));
	case K::FEQ: return bitsToD(a, aw) == bitsToD(b, aw);
	case K::FLT: return bitsToD(a, aw) < bitsToD(b, aw);
	case K::FLE: return bitsToD(a, aw) <= bitsToD(b, aw);
	case K::FUNO: {
		double x = bitsToD(a, aw), y = bitsToD(b, aw);
		return x != x || y != y;
	}
	case K::IFP: return dToBits(ldexp((double)(i64)sextw(a, aw), (int)(i64)e->v), w);
	case K::SITOFP: return w == 32 ? f2bits((float)sextw(a, aw)) : d2bits((double)sextw(a, aw));
	case K::UITOFP: return w == 32 ? f2bits((float)a) : d2bits((double)a);
	case K::FPTOSI: {
		double d = bitsToD(a, aw);
		double lim = ldexp(1.0, w - 1);
		if (!(d > -lim - 1 && d < lim)) // out of range: x86 indefinite value
			return ((u128)1 << (w <= 32 ? (w == 32 ? 31 : w - 1) : 63)) & m;
		return (u128)(i128)d & m;
	}
	case K::FPTOUI: {
		double d = bitsToD(a, aw);
		if (!(d > -1 && d < ldexp(1.0, w)))
			return d > 0 ? 0 : ((u128)1 << (w - 1));
		return (u128)d & m;
	}
	case K::FPCVT: return dToBits(bitsToD(a, aw), w);
	case K::FROUND: {
		double d = bitsToD(a, aw);
		switch ((int)e->v) {
		case 0: d = floor(d); break;
		case 1: d = ceil(d); break;
		case 2: d = trunc(d); break;
		case 3: d = rint(d); break;
		default: d = round(d); break;
		}
		return dToBits(d, w);
	}
	case K::FUN: return dToBits(funEval((int)e->v, bitsToD(a, aw), e->b ? bitsToD(b, aw) : 0), w);
	}
	abort();
}

static uint32_t g_epoch = 0;
static u128 evalRec(E e, const Model& m)
{
	if (e->op == K::CONST)
		return e->v;
	if (e->epoch == g_epoch)
		return e->ev;
	u128 r;
	if (e->op == K::VAR)
		r = m.get((uint32_t)e->v) & maskw(e->w);
	else if (e->op == K::ITE) {
		r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m);
	} else {
		u128 a = e->a ? evalRec(e->a, m) : 0;
		u128 b = e->b ? evalRec(e->b, m) : 0;
		r = foldOp(e, a, b, 0);
	}
	e->epoch = g_epoch;
	e->ev = r;
	return r;
}
u128 evalE(E e, const Model& m)
{
	if (e->op == K::CONST)
		return e->v;
	++g_epoch;
	return evalRec(e, m);
}

// ---------------------------------------------------------------- builders
E mkConst(u128 v, int w) { return intern(K::CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
E mkTrue() { static E e = mkConst(1, 1); return e; }
E mkFalse() { static E e = mkConst(0, 1); return e; }

E mkVar(const std::string& name, int w, u64 ulo, u64 uhi, bool sgn, i64 slo, i64 shi)
{
	static std::map<std::string, E> tab;
	char buf[128];
	snprintf(buf, sizeof buf, "|%d|%llu|%llu|%lld|%lld", w, (unsigned long long)ulo, (unsigned long long)uhi, (long long)slo, (long long)shi);
	std::string key = name + buf;
	auto it = tab.find(key);
	if (it != tab.end())
		return it->second;
	uint32_t idx = (uint32_t)g_vars.size();
	Expr* e = (Expr*)intern(K::VAR, w, nullptr, nullptr, nullptr, idx);
	if (sgn) {
		e->slo = slo;
		e->shi = shi;
	} else {
		e->ulo = ulo;
		e->uhi = uhi;
	}
	fromU(e);
	VarSet* s = new VarSet;
	s->v.push_back(idx);
	g_sets[s->v] = s;
	e->vars = s;
	g_vars.push_back({ key, w, e });
	tab[key] = e;
	return e;
}

static E mk2(K op, int w, E a, E b)
{
	if (a->isConst() && b->isConst()) {
		Expr t;
		t.op = op;
		t.w = w;
		t.a = a;
		t.b = b;
		t.v = 0;
		return mkConst(foldOp(&t, a->v, b->v, 0), w);
	}
	E e = intern(op, w, a, b, nullptr, 0);
	if (w <= 64 && e->ulo == e->uhi && !e->fp)
		return mkConst(e->ulo, w);
	return e;
}
static E mk1(K op, int w, E a, u128 v = 0)
{
	if (a->isConst()) {
		Expr t;
		t.op = op;
		t.w = w;
		t.a = a;
		t.b = nullptr;
		t.v = v;
		return mkConst(foldOp(&t, a->v, 0, 0), w);
	}
	return intern(op, w, a, nullptr, nullptr, v);
}

// linear normal form
static bool gather(E e, u128 coef, std::vector<std::pair<E, u128>>& out, u128& cst, size_t limit)
{
	if (e->op == K::CONST) {
		cst += coef * e->v;
		return true;
	}
	if (e->op == K::ADD)
		return gather(e->a, coef, out, cst, limit) && gather(e->b, coef, out, cst, limit);
	if (e->op == K::MUL && e->b->isConst())
		return gather(e->a, coef * e->b->v, out, cst, limit);
	if (out.size() >= limit)
		return false;
	out.push_back({ e, coef });
	return true;
}
static E scaled(E t, u128 c)
{
	int w = t->w;
	c &= maskw(w);
	if (c == 1)
		return t;
	return mk2(K::MUL, w, t, mkConst(c, w));
}
static E rebuild(std::vector<std::pair<E, u128>>& t, u128 cst, int w)
{
	std::sort(t.begin(), t.end(), [](const std::pair<E, u128>& x, const std::pair<E, u128>& y) { return x.first->id < y.first->id; });
	std::vector<std::pair<E, u128>> u;
	for (auto& p : t) {
		if (!u.empty() && u.back().first == p.first)
			u.back().second += p.second;
		else
			u.push_back(p);
	}
	E r = nullptr;
	for (auto& p : u) {
		u128 c = p.second & maskw(w);
		if (c == 0)
			continue;
		E x = scaled(p.first, c);
		r = r ? mk2(K::ADD, w, r, x) : x;
	}
	cst &= maskw(w);
	if (!r)
		return mkConst(cst, w);
	if (cst)
		r = mk2(K::ADD, w, r, mkConst(cst, w));
	return r;
}
E mkAdd(E a, E b)
{
	int w = a->w;
	if (a->isConst() && b->isConst())
		return mkConst(a->v + b->v, w);
	if (a->isConst() && a->v == 0)
		return b;
	if (b->isConst() && b->v == 0)
		return a;
	if (w == 1)
		return mkBin(K::XOR, a, b);
	std::vector<std::pair<E, u128>> t;
	u128 c = 0;
	if (gather(a, 1, t, c, 96) && gather(b, 1, t, c, 96))
		return rebuild(t, c, w);
	if (a->id > b->id)
		std::swap(a, b);
	return mk2(K::ADD, w, a, b);
}
E mkNeg(E a) { return mkMul(a, mkConst(~(u128)0, a->w)); }
E mkSub(E a, E b)
{
	if (a == b)
		return mkConst(0, a->w);
	if (a->w == 1)
		return mkBin(K::XOR, a, b);
	return mkAdd(a, mkNeg(b));
}
E mkMul(E a, E b)
{
	int w = a->w;
	if (a->isConst())
		std::swap(a, b);
	if (b->isConst()) {
		if (a->isConst())
			return mkConst(a->v * b->v, w);
		if (b->v == 0)
			return b;
		if (b->v == 1)
			return a;
		std::vector<std::pair<E, u128>> t;
		u128 c = 0;
		if (gather(a, b->v, t, c, 96))
			return rebuild(t, c, w);
		return mk2(K::MUL, w, a, b);
	}
	if (w == 1)
		return mkBin(K::AND, a, b);
	// pull constant factors out
	if (a->op == K::MUL && a->b->isConst())
		return mkMul(mkMul(a->a, b), a->b);
	if (b->op == K::MUL && b->b->isConst())
		return mkMul(mkMul(a, b->a), b->b);
	if (a->id > b->id)
		std::swap(a, b);
	return mk2(K::MUL, w, a, b);
}
E mkNot(E a)
{
	if (a->isConst())
		return mkConst(~a->v, a->w);
	if (a->op == K::NOT)
		return a->a;
	if (a->w == 1) {
		switch (a->op) {
		case K::ULT: return mkUle(a->b, a->a);
		case K::ULE: return mkUlt(a->b, a->a);
		case K::SLT: return mkSle(a->b, a->a);
		case K::SLE: return mkSlt(a->b, a->a);
		default: break;
		}
	}
	return mk1(K::NOT, a->w, a);
}
static bool isOnes(E e) { return e->isConst() && e->v == maskw(e->w); }
static bool isZero(E e) { return e->isConst() && e->v == 0; }

E mkBin(K op, E a, E b)
{
	int w = a->w;
	if (a->isConst() && b->isConst())
		return mk2(op, w, a, b);
	switch (op) {
	case K::AND:
		if (a->isConst())
			std::swap(a, b);
		if (isZero(b))
			return b;
		if (isOnes(b) || a == b)
			return a;
		if ((a->op == K::NOT && a->a == b) || (b->op == K::NOT && b->a == a))
			return mkConst(0, w);
		if (b->isConst() && w <= 64) {
			// mask of low bits that covers the whole range
			u64 m = b->cv();
			if ((m & (m + 1)) == 0) {
				if (a->uhi <= m)
					return a;
				int n = 64 - __builtin_clzll(m);
				return mkZext(mkExtract(a, 0, n), w);
			}
		}
		if (w == 1 && a->op == K::AND && (a->a == b || a->b == b))
			return a;
		if (w == 1 && b->op == K::AND && (b->a == a || b->b == a))
			return b;
		break;
	case K::OR:
		if (a->isConst())
			std::swap(a, b);
		if (isZero(b) || a == b)
			return a;
		if (isOnes(b))
			return b;
		if ((a->op == K::NOT && a->a == b) || (b->op == K::NOT && b->a == a))
			return mkConst(~(u128)0, w);
		// disjoint shifted pieces: (zext(x) << k) | zext(y)
		for (int s = 0; s < 2; ++s) {
			E p = s ? b : a, q = s ? a : b;
			if (p->op == K::CONCAT && isZero(p->b) && q->op == K::ZEXT && q->a->w <= p->b->w)
				return mkConcat(p->a, mkZext(q->a, p->b->w));
		}
		break;
	case K::XOR:
		if (a->isConst())
			std::swap(a, b);
		if (isZero(b))
			return a;
		if (isOnes(b))
			return mkNot(a);
		if (a == b)
			return mkConst(0, w);
		if (b->isConst() && a->op == K::XOR && a->b->isConst())
			return mkBin(K::XOR, a->a, mkConst(a->b->v ^ b->v, w));
		break;
	case K::SHL:
		if (isZero(b))
			return a;
		if (b->isConst()) {
			if (b->v >= (u128)w)
				return mkConst(0, w);
			int s = (int)b->v;
			// as a multiplication it joins the linear normal form, as concat it keeps the structure
			if (a->op == K::ZEXT || a->op == K::EXTRACT || a->op == K::CONCAT)
				return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
			return mkMul(a, mkConst((u128)1 << s, w));
		}
		break;
	case K::LSHR:
		if (isZero(b))
			return a;
		if (b->isConst()) {
			if (b->v >= (u128)w)
				return mkConst(0, w);
			int s = (int)b->v;
			return mkZext(mkExtract(a, s, w - s), w);
		}
		break;
	case K::ASHR:
		if (isZero(b))
			return a;
		if (b->isConst()) {
			int s = b->v >= (u128)w ? w - 1 : (int)b->v;
			if (w <= 64 && a->slo >= 0)
				return mkBin(K::LSHR, a, mkConst(s, w));
			return mkSext(mkExtract(a, s, w - s), w);
		}
		break;
	case K::UDIV:
		if (b->isConst()) {
			if (b->v == 1)
				return a;
			if (b->v && (b->v & (b->v - 1)) == 0) {
				int s = 0;
				while (((b->v >> s) & 1) == 0)
					++s;
				return mkBin(K::LSHR, a, mkConst(s, w));
			}
		}
		if (w <= 64 && a->uhi < b->ulo)
			return mkConst(0, w);
		// narrow
		if (w > 8 && w <= 64 && b->ulo > 0) {
			for (int n : { 8, 16, 32 })
				if (n < w && a->uhi <= (u64)maskw(n) && b->uhi <= (u64)maskw(n))
					return mkZext(mkBin(K::UDIV, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
		}
		break;
	case K::UREM:
		if (b->isConst()) {
			if (b->v == 1)
				return mkConst(0, w);
			if (b->v && (b->v & (b->v - 1)) == 0)
				return mkBin(K::AND, a, mkConst(b->v - 1, w));
		}
		if (w <= 64 && a->uhi < b->ulo)
			return a;
		if (w > 8 && w <= 64 && b->ulo > 0) {
			for (int n : { 8, 16, 32 })
				if (n < w && a->uhi <= (u64)maskw(n) && b->uhi <= (u64)maskw(n))
					return mkZext(mkBin(K::UREM, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
		}
		break;
	case K::SDIV:
	case K::SREM:
		if (w <= 64 && a->slo >= 0 && b->slo >= 0)
			return mkBin(op == K::SDIV ? K::UDIV : K::UREM, a, b);
		break;
	case K::ADD: return mkAdd(a, b);
	case K::MUL: return mkMul(a, b);
	default: break;
	}
	if (op == K::AND || op == K::OR || op == K::XOR)
		if (!b->isConst() && a->id > b->id)
			std::swap(a, b);
	return mk2(op, w, a, b);
}

// ---------------------------------------------------------------- polynomial identity
typedef std::vector<uint32_t> Mono;
typedef std::map<Mono, std::pair<u128, int>> Poly;
static std::unordered_map<E, Poly*> g_poly;
static const Poly* polyOf(E e)
{
	auto it = g_poly.find(e);
	if (it != g_poly.end())
		return it->second;
	Poly* r = new Poly;
	bool ok = true;
	const size_t LIM = 4000;
	if (e->op == K::CONST) {
		if (e->v)
			(*r)[Mono()].first = e->v;
	} else if (e->op == K::ADD) {
		const Poly *p = polyOf(e->a), *q = polyOf(e->b);
		if (!p || !q || p->size() + q->size() > LIM)
			ok = false;
		else {
			*r = *p;
			for (auto& m : *q) {
				auto& c = (*r)[m.first];
				c.first = (c.first + m.second.first) & maskw(e->w);
				if (c.first == 0)
					r->erase(m.first);
			}
		}
	} else if (e->op == K::MUL) {
		const Poly *p = polyOf(e->a), *q = polyOf(e->b);
		if (!p || !q || p->size() * q->size() > LIM)
			ok = false;
		else
			for (auto& m : *p)
				for (auto& n : *q) {
					Mono t;
					std::merge(m.first.begin(), m.first.end(), n.first.begin(), n.first.end(), std::back_inserter(t));
					auto& c = (*r)[t];
					c.first = (c.first + m.second.first * n.second.first) & maskw(e->w);
					if (c.first == 0)
						r->erase(t);
				}
	} else if (e->op == K::UREM || e->op == K::SREM || (e->op == K::ZEXT && e->a->op == K::UREM)) {
		// a % b = a - b * (a / b), also for b = 0 with the solver's conventions
		E x = e->op == K::ZEXT ? e->a : e;
		E q = mkBin(x->op == K::SREM ? K::SDIV : K::UDIV, x->a, x->b), a = x->a, b = x->b;
		if (e->op == K::ZEXT) {
			q = mkZext(q, e->w);
			a = mkZext(a, e->w);
			b = mkZext(b, e->w);
		}
		const Poly* z = nullptr;
		E y = mkSub(a, mkMul(b, q));
		if (y != e && (z = polyOf(y)))
			*r = *z;
		else
			(*r)[Mono(1, e->id)].first = 1;
	} else
		(*r)[Mono(1, e->id)].first = 1;
	if (!ok) {
		delete r;
		r = nullptr;
	}
	g_poly[e] = r;
	return r;
}

u64 g_nfSame = 0, g_nfProved = 0;
std::vector<std::pair<E, E>> g_nfPairs;
static void nfProved(E a, E b)
{
	++g_nfProved;
	if (g_nfPairs.size() < 120 && a->w <= 64)
		g_nfPairs.push_back({ a, b });
}
E mkEq(E a, E b)
{
	if (a == b) {
		if (!a->isConst())
			++g_nfSame;
		return mkTrue();
	}
	if (a->isConst() && b->isConst())
		return a->v == b->v ? mkTrue() : mkFalse();
	if (a->isConst())
		std::swap(a, b);
	int w = a->w;
	if (w <= 64 && (a->uhi < b->ulo || b->uhi < a->ulo || a->shi < b->slo || b->shi < a->slo))
		return mkFalse();
	if (b->isConst()) {
		if (w == 1)
			return b->v ? a : mkNot(a);
		switch (a->op) {
		case K::ZEXT:
			if (b->v >> a->a->w)
				return mkFalse();
			return mkEq(a->a, mkConst(b->v, a->a->w));
		case K::SEXT: {
			u128 low = b->v & maskw(a->a->w);
			if (((u128)sextw(low, a->a->w) & maskw(w)) != b->v)
				return mkFalse();
			return mkEq(a->a, mkConst(low, a->a->w));
		}
		case K::ADD:
			if (a->b->isConst())
				return mkEq(a->a, mkConst(b->v - a->b->v, w));
			break;
		case K::MUL:
			if (a->b->isConst() && (a->b->v & 1)) { // odd factor: invert
				u128 x = a->b->v, inv = x;
				for (int i = 0; i < 7; ++i)
					inv *= 2 - x * inv;
				return mkEq(a->a, mkConst(b->v * inv, w));
			}
			break;
		case K::XOR:
			if (a->b->isConst())
				return mkEq(a->a, mkConst(b->v ^ a->b->v, w));
			break;
		case K::NOT: return mkEq(a->a, mkConst(~b->v, w));
		case K::ITE:
			if (a->b->isConst() || a->c->isConst()) {
				E t = mkEq(a->b, b), f = mkEq(a->c, b);
				return mkIte(a->a, t, f);
			}
			break;
		case K::CONCAT: {
			E h = mkEq(a->a, mkConst(b->v >> a->b->w, a->a->w));
			E l = mkEq(a->b, mkConst(b->v, a->b->w));
			return mkAnd(h, l);
		}
		default: break;
		}
	} else {
		if (w == 1)
			return mkNot(mkBin(K::XOR, a, b));
		if (a->op == K::ZEXT && b->op == K::ZEXT && a->a->w == b->a->w)
			return mkEq(a->a, b->a);
		if (a->op == K::SEXT && b->op == K::SEXT && a->a->w == b->a->w)
			return mkEq(a->a, b->a);
		if (a->op == K::ADD || b->op == K::ADD || a->op == K::MUL || b->op == K::MUL) {
			std::vector<std::pair<E, u128>> t;
			u128 c = 0;
			if (gather(a, 1, t, c, 96) && gather(b, ~(u128)0, t, c, 96)) {
				E d = rebuild(t, c, w);
				if (d->isConst()) {
					if (d->v == 0)
						nfProved(a, b);
					return d->v == 0 ? mkTrue() : mkFalse();
				}
				if (w <= 64 && (d->ulo > 0 || d->slo > 0 || d->shi < 0))
					return mkFalse();
				bool rem = false;
				for (auto& x : t)
					rem = rem || x.first->op == K::UREM || x.first->op == K::SREM || (x.first->op == K::ZEXT && x.first->a->op == K::UREM);
				if (d->nonlin || rem) {
					const Poly* p = polyOf(d);
					if (p && p->empty()) {
						nfProved(a, b);
						return mkTrue();
					}
					if (p && p->size() == 1 && p->begin()->first.empty())
						return mkFalse();
				}
			}
		}
	}
	if (!b->isConst() && a->id > b->id)
		std::swap(a, b);
	return mk2(K::EQ, 1, a, b);
}

// e == core + k without wrapping around (unsigned / signed)?
static bool splitConst(E e, bool sgn, E& core, i64& k)
{
	if (e->w > 64)
		return false;
	core = e;
	k = 0;
	if (e->op != K::ADD || !e->b->isConst())
		return true;
	i64 c = (i64)sextw(e->b->v, e->w);
	E x = e->a;
	i128 lo, hi, mn, mx;
	if (sgn) {
		lo = x->slo;
		hi = x->shi;
		mn = -((i128)1 << (e->w - 1));
		mx = ((i128)1 << (e->w - 1)) - 1;
	} else {
		lo = x->ulo;
		hi = x->uhi;
		mn = 0;
		mx = (i128)maskw(e->w);
	}
	if (lo + c < mn || hi + c > mx)
		return true; // stays whole
	core = x;
	k = c;
	return true;
}
// -1 unknown, otherwise the truth of a < b
static int cmpOffsets(E a, E b, bool sgn, bool orEqual)
{
	E ca, cb;
	i64 ka, kb;
	if ((a->op != K::ADD && b->op != K::ADD) || !splitConst(a, sgn, ca, ka) || !splitConst(b, sgn, cb, kb) || ca != cb)
		return -1;
	return orEqual ? ka <= kb : ka < kb;
}
E mkUlt(E a, E b)
{
	int w = a->w;
	if (a == b)
		return mkFalse();
	{
		int k = cmpOffsets(a, b, false, false);
		if (k >= 0)
			return k ? mkTrue() : mkFalse();
	}
	if (w <= 64) {
		if (a->uhi < b->ulo)
			return mkTrue();
		if (a->ulo >= b->uhi)
			return mkFalse();
	}
	if (a->isConst() && b->isConst())
		return a->v < b->v ? mkTrue() : mkFalse();
	if (w == 1)
		return mkAnd(mkNot(a), b);
	if (b->isConst() && b->v == 1)
		return mkEq(a, mkConst(0, w));
	if (a->isConst() && a->v == 0)
		return mkNot(mkEq(b, a));
	if (a->op == K::ZEXT && b->op == K::ZEXT && a->a->w == b->a->w)
		return mkUlt(a->a, b->a);
	if (a->op == K::ZEXT && b->isConst() && (b->v >> a->a->w) == 0)
		return mkUlt(a->a, mkConst(b->v, a->a->w));
	if (b->op == K::ZEXT && a->isConst() && (a->v >> b->a->w) == 0)
		return mkUlt(mkConst(a->v, b->a->w), b->a);
	return mk2(K::ULT, 1, a, b);
}
E mkUle(E a, E b)
{
	int w = a->w;
	if (a == b)
		return mkTrue();
	{
		int k = cmpOffsets(a, b, false, true);
		if (k >= 0)
			return k ? mkTrue() : mkFalse();
	}
	if (w <= 64) {
		if (a->uhi <= b->ulo)
			return mkTrue();
		if (a->ulo > b->uhi)
			return mkFalse();
	}
	if (a->isConst() && b->isConst())
		return a->v <= b->v ? mkTrue() : mkFalse();
	if (w == 1)
		return mkOr(mkNot(a), b);
	if (b->isConst() && b->v == 0)
		return mkEq(a, b);
	if (a->isConst()) // c <= b  ==  !(b < c)  ==  c-1 < b
		return mkUlt(mkConst(a->v - 1, w), b);
	if (b->isConst())
		return mkUlt(a, mkConst(b->v + 1, w));
	if (a->op == K::ZEXT && b->op == K::ZEXT && a->a->w == b->a->w)
		return mkUle(a->a, b->a);
	return mk2(K::ULE, 1, a, b);
}
E mkSlt(E a, E b)
{
	int w = a->w;
	if (a == b)
		return mkFalse();
	{
		int k = cmpOffsets(a, b, true, false);
		if (k >= 0)
			return k ? mkTrue() : mkFalse();
	}
	if (w <= 64) {
		if (a->shi < b->slo)
			return mkTrue();
		if (a->slo >= b->shi)
			return mkFalse();
		if (a->slo >= 0 && b->slo >= 0)
			return mkUlt(a, b);
	}
	if (a->op == K::SEXT && b->op == K::SEXT && a->a->w == b->a->w)
		return mkSlt(a->a, b->a);
	if (a->op == K::SEXT && b->isConst() && w <= 64) {
		int n = a->a->w;
		i64 c = (i64)sextw(b->v, w);
		if ((i64)sextw((u128)c & maskw(n), n) == c)
			return mkSlt(a->a, mkConst(c, n));
	}
	if (b->op == K::SEXT && a->isConst() && w <= 64) {
		int n = b->a->w;
		i64 c = (i64)sextw(a->v, w);
		if ((i64)sextw((u128)c & maskw(n), n) == c)
			return mkSlt(mkConst(c, n), b->a);
	}
	return mk2(K::SLT, 1, a, b);
}
E mkSle(E a, E b)
{
	int w = a->w;
	if (a == b)
		return mkTrue();
	{
		int k = cmpOffsets(a, b, true, true);
		if (k >= 0)
			return k ? mkTrue() : mkFalse();
	}
	if (w <= 64) {
		if (a->shi <= b->slo)
			return mkTrue();
		if (a->slo > b->shi)
			return mkFalse();
		if (a->slo >= 0 && b->slo >= 0)
			return mkUle(a, b);
	}
	if (a->op == K::SEXT && b->op == K::SEXT && a->a->w == b->a->w)
		return mkSle(a->a, b->a);
	return mk2(K::SLE, 1, a, b);
}

E mkIte(E c, E t, E f)
{
	if (c->isConst())
		return c->v ? t : f;
	if (t == f)
		return t;
	if (c->op == K::NOT)
		return mkIte(c->a, f, t);
	int w = t->w;
	if (w == 1) {
		if (t->isConst())
			return t->v ? mkOr(c, f) : mkAnd(mkNot(c), f);
		if (f->isConst())
			return f->v ? mkOr(mkNot(c), t) : mkAnd(c, t);
	}
	if (t->op == K::ITE && t->a == c)
		t = t->b;
	if (f->op == K::ITE && f->a == c)
		f = f->c;
	if (t == f)
		return t;
	if (t->op == K::ZEXT && f->op == K::ZEXT && t->a->w == f->a->w)
		return mkZext(mkIte(c, t->a, f->a), w);
	if (t->op == K::SEXT && f->op == K::SEXT && t->a->w == f->a->w)
		return mkSext(mkIte(c, t->a, f->a), w);
	// exact floating point integers
	if (w == 64 && (t->op == K::IFP || f->op == K::IFP)) {
		E tt = t, ff = f;
		auto asI = [](E x, E other) -> E {
			if (x->op == K::IFP)
				return x;
			if (x->isConst()) {
				double d = bits2d(x->cv());
				if (std::isfinite(d) && !(d == 0 && std::signbit(d))) {
					double s = ldexp(d, -(int)(i64)other->v);
					if (s == floor(s) && fabs(s) < 9007199254740992.0)
						return intern(K::IFP, 64, mkConst((u128)(i128)(i64)s, 64), nullptr, nullptr, other->v);
				}
			}
			return nullptr;
		};
		E x = asI(tt, ff), y = asI(ff, tt);
		if (x && y && x->v == y->v)
			return mkIFP(mkIte(c, x->a, y->a), (int)(i64)x->v, 64);
	}
	E e = intern(K::ITE, w, c, t, f, 0);
	return e;
}

E mkConcat(E h, E l)
{
	int w = h->w + l->w;
	if (h->isConst() && l->isConst())
		return mkConst((h->v << l->w) | l->v, w);
	if (isZero(h))
		return mkZext(l, w);
	if (h->op == K::EXTRACT && l->op == K::EXTRACT && h->a == l->a && (int)h->v == (int)l->v + l->w)
		return mkExtract(h->a, (int)l->v, w);
	if (h->op == K::EXTRACT && l == h->a && 0)
		return nullptr;
	// re-associate so that constant zero tails merge
	if (l->op == K::CONCAT && h->isConst() && l->a->isConst())
		return mkConcat(mkConst((h->v << l->a->w) | l->a->v, h->w + l->a->w), l->b);
	if (h->op == K::CONCAT && l->isConst() && h->b->isConst())
		return mkConcat(h->a, mkConst((h->b->v << l->w) | l->v, h->b->w + l->w));
	if (h->op == K::CONCAT && h->b->op == K::EXTRACT && l->op == K::EXTRACT && h->b->a == l->a && (int)h->b->v == (int)l->v + l->w)
		return mkConcat(h->a, mkExtract(l->a, (int)l->v, h->b->w + l->w));
	return mk2(K::CONCAT, w, h, l);
}
E mkExtract(E a, int lo, int w)
{
	if (lo == 0 && w == a->w)
		return a;
	if (a->isConst())
		return mkConst(a->v >> lo, w);
	switch (a->op) {
	case K::EXTRACT: return mkExtract(a->a, lo + (int)a->v, w);
	case K::ZEXT:
		if (lo >= a->a->w)
			return mkConst(0, w);
		if (lo + w <= a->a->w)
			return mkExtract(a->a, lo, w);
		return mkZext(mkExtract(a->a, lo, a->a->w - lo), w);
	case K::SEXT:
		if (lo + w <= a->a->w)
			return mkExtract(a->a, lo, w);
		if (lo < a->a->w)
			return mkSext(mkExtract(a->a, lo, a->a->w - lo), w);
		break;
	case K::CONCAT: {
		int lw = a->b->w;
		if (lo >= lw)
			return mkExtract(a->a, lo - lw, w);
		if (lo + w <= lw)
			return mkExtract(a->b, lo, w);
		return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
	}
	case K::ADD:
		if (lo == 0)
			return mkAdd(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
		break;
	case K::MUL:
		if (lo == 0)
			return mkMul(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
		break;
	case K::AND:
	case K::OR:
	case K::XOR: return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
	case K::NOT: return mkNot(mkExtract(a->a, lo, w));
	case K::ITE:
		if (a->b->isConst() || a->c->isConst() || a->b->op == K::ZEXT || a->c->op == K::ZEXT)
			return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
		break;
	default: break;
	}
	if (a->w <= 64 && lo < 64 && (a->uhi >> lo) == 0)
		return mkConst(0, w);
	return mk1(K::EXTRACT, w, a, lo);
}
E mkZext(E a, int w)
{
	if (a->w == w)
		return a;
	if (a->isConst())
		return mkConst(a->v, w);
	if (a->op == K::ZEXT)
		return mkZext(a->a, w);
	// zext(trunc(x)) with x small: x
	if (a->op == K::EXTRACT && a->v == 0 && a->a->w == w && w <= 64 && a->a->uhi <= (u64)maskw(a->w))
		return a->a;
	if (a->op == K::ITE && a->b->isConst() && a->c->isConst())
		return mkIte(a->a, mkZext(a->b, w), mkZext(a->c, w));
	return mk1(K::ZEXT, w, a);
}
E mkSext(E a, int w)
{
	if (a->w == w)
		return a;
	if (a->isConst())
		return mkConst((u128)sextw(a->v, a->w), w);
	if (a->op == K::SEXT)
		return mkSext(a->a, w);
	if (a->op == K::ZEXT)
		return mkZext(a->a, w);
	if (a->w <= 64 && a->slo >= 0)
		return mkZext(a, w);
	if (a->op == K::EXTRACT && a->v == 0 && a->a->w == w && w <= 64 && a->w < 64) {
		i64 m = (i64)1 << (a->w - 1);
		if (a->a->slo >= -m && a->a->shi < m)
			return a->a;
	}
	if (a->op == K::ITE && a->b->isConst() && a->c->isConst())
		return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));
	return mk1(K::SEXT, w, a);
}
E mkUn(K op, E a)
{
	return mk1(op, a->w, a);
}

// ---------------------------------------------------------------- floating point
static const double TWO53 = 9007199254740992.0;
static bool fitsIFP(E n, int w)
{
	i64 lim = w == 32 ? (1 << 24) : ((i64)1 << 53);
	return n->slo >= -lim && n->shi <= lim;
}
E mkIFP(E n, int k, int w)
{
	if (n->isConst()) {
		double d = ldexp((double)(i64)n->v, k);
		return mkConst(dToBits(d, w), w);
	}
	// a common power of two in the coefficients is left alone
	return intern(K::IFP, w, n, nullptr, nullptr, (u128)(i128)k);
}
// view e as n*2^k
static bool asIFP(E e, E& n, int& k)
{
	if (e->op == K::IFP) {
		n = e->a;
		k = (int)(i64)e->v;
		return true;
	}
	if (e->isConst()) {
		double d = bitsToD(e->v, e->w);
		if (!std::isfinite(d))
			return false;
		if (d == 0) { // of either sign: a sum with a negative zero is the other operand; the sign of a zero product is outside the model
			n = mkConst(0, 64);
			k = 0;
			return true;
		}
		int ex;
		double f = frexp(d, &ex); // d = f*2^ex, 0.5<=|f|<1
		double s = ldexp(f, 53);
		i64 m = (i64)s;
		ex -= 53;
		while ((m & 1) == 0) {
			m >>= 1;
			++ex;
		}
		if (ex > 0 && ex < 40 && (fabs((double)m) * ldexp(1.0, ex)) < TWO53) {
			m = (i64)(m * ldexp(1.0, ex));
			ex = 0;
		}
		n = mkConst((u128)(i128)m, 64);
		k = ex;
		return true;
	}
	return false;
}
static bool alignIFP(E& x, int& kx, E& y, int& ky)
{
	if (isZero(x))
		kx = ky;
	if (isZero(y))
		ky = kx;
	if (kx == ky)
		return true;
	E& hi = kx > ky ? x : y;
	int& kh = kx > ky ? kx : ky;
	int kl = std::min(kx, ky);
	int d = kh - kl;
	if (d > 60)
		return false;
	i128 f = (i128)1 << d;
	if ((i128)hi->slo * f < -((i128)1 << 62) || (i128)hi->shi * f > ((i128)1 << 62))
		return false;
	hi = mkMul(hi, mkConst((u128)f, 64));
	kh = kl;
	return true;
}
static E normIFP(E n, int k, int w)
{
	if (!fitsIFP(n, w) || k < -200 || k > 200)
		return nullptr;
	return mkIFP(n, k, w);
}
static bool noOverflowAdd(E x, E y, bool sub)
{
	i128 l = sub ? (i128)x->slo - y->shi : (i128)x->slo + y->slo;
	i128 h = sub ? (i128)x->shi - y->slo : (i128)x->shi + y->shi;
	return l > -((i128)1 << 62) && h < ((i128)1 << 62);
}
E mkF(K op, E a, E b)
{
	int w = a->w;
	if (a->isConst() && b->isConst())
		return mk2(op, w, a, b);
	E x, y;
	int kx, ky;
	if (op != K::FREM && op != K::FDIV && asIFP(a, x, kx) && asIFP(b, y, ky)) {
		if (op == K::FMUL) {
			i128 p[4] = { (i128)x->slo * y->slo, (i128)x->slo * y->shi, (i128)x->shi * y->slo, (i128)x->shi * y->shi };
			bool ok = true;
			for (i128 q : p)
				if (q > ((i128)1 << 60) || q < -((i128)1 << 60))
					ok = false;
			if (ok) {
				E r = normIFP(mkMul(x, y), kx + ky, w);
				if (r)
					return r;
			}
		} else if (alignIFP(x, kx, y, ky) && noOverflowAdd(x, y, op == K::FSUB)) {
			E r = normIFP(op == K::FADD ? mkAdd(x, y) : mkSub(x, y), kx, w);
			if (r)
				return r;
		}
	}
	if (op == K::FDIV && b->isConst() && asIFP(a, x, kx)) {
		double d = bitsToD(b->v, w);
		int ex;
		if (std::isfinite(d) && d != 0 && fabs(frexp(d, &ex)) == 0.5)
			return mkF(K::FMUL, a, mkConst(dToBits(1.0 / d, w), w));
	}
	if (op == K::FSUB && b->isConst() && bitsToD(b->v, w) == 0 && !std::signbit(bitsToD(b->v, w)))
		return a;
	if ((op == K::FMUL || op == K::FDIV) && b->isConst() && bitsToD(b->v, w) == 1)
		return a;
	if (op == K::FMUL && a->isConst() && bitsToD(a->v, w) == 1)
		return b;
	if ((op == K::FADD || op == K::FMUL) && a->id > b->id)
		std::swap(a, b);
	return mk2(op, w, a, b);
}
E mkFNeg(E a)
{
	E x;
	int k;
	if (a->op == K::IFP && asIFP(a, x, k))
		return mkIFP(mkNeg(x), k, a->w);
	return mkBin(K::XOR, a, mkConst((u128)1 << (a->w - 1), a->w));
}
E mkFAbs(E a)
{
	E x;
	int k;
	if (a->op == K::IFP && asIFP(a, x, k))
		return mkIFP(mkIte(mkSlt(x, mkConst(0, 64)), mkNeg(x), x), k, a->w);
	return mkBin(K::AND, a, mkConst(maskw(a->w - 1), a->w));
}
E mkFSqrt(E a) { return mk1(K::FSQRT, a->w, a); }

// a bound of |e|, infinite if none is known; a finite bound also means: not NaN
static double magnitude(E e, int depth = 24)
{
	const double inf = INFINITY;
	if (e->w != 64 || depth == 0)
		return inf;
	if (e->isConst()) {
		double d = fabs(bits2d(e->cv()));
		return d <= 1e200 ? d : inf;
	}
	double m = inf;
	switch (e->op) {
	case K::IFP: m = ldexp(TWO53, (int)(i64)e->v); break;
	case K::SITOFP:
	case K::UITOFP: m = e->a->w <= 64 ? 2e19 : inf; break;
	case K::FADD:
	case K::FSUB: m = magnitude(e->a, depth - 1) + magnitude(e->b, depth - 1); break;
	case K::FMUL: m = magnitude(e->a, depth - 1) * magnitude(e->b, depth - 1); break;
	case K::FDIV:
		if (e->b->isConst()) {
			double d = fabs(bits2d(e->b->cv()));
			if (d >= 1e-100 && d <= 1e200)
				m = magnitude(e->a, depth - 1) / d;
		}
		break;
	default: break;
	}
	return m <= 1e200 ? m * (1 + 1e-9) : inf;
}

E mkFCmp(K op, E a, E b)
{
	if (a->isConst() && b->isConst())
		return mk2(op, 1, a, b);
	if (a == b && std::isfinite(magnitude(a)))
		return op == K::FEQ || op == K::FLE ? mkTrue() : mkFalse();
	E x, y;
	int kx, ky;
	if (op == K::FUNO) {
		bool fa = asIFP(a, x, kx), fb = asIFP(b, y, ky);
		if (fa && fb)
			return mkFalse();
		if (fa)
			a = b;
		if (fb)
			b = a;
		if (std::isfinite(magnitude(a)) && std::isfinite(magnitude(b)))
			return mkFalse();
		if (a->id > b->id)
			std::swap(a, b);
		return mk2(op, 1, a, b);
	}
	auto isNegZero = [](E e) { return e->isConst() && e->v == ((u128)1 << (e->w - 1)); };
	if (isNegZero(a))
		a = mkConst(0, a->w);
	if (isNegZero(b))
		b = mkConst(0, b->w);
	// against infinities
	for (int s = 0; s < 2; ++s) {
		E p = s ? b : a, q = s ? a : b;
		if (p->op == K::IFP && q->isConst()) {
			double d = bitsToD(q->v, q->w);
			if (d != d)
				return mkFalse();
			if (std::isinf(d)) {
				if (op == K::FEQ)
					return mkFalse();
				bool pLess = d > 0; // p < q
				return (s ? !pLess : pLess) ? mkTrue() : mkFalse();
			}
		}
	}
	if (asIFP(a, x, kx) && asIFP(b, y, ky)) {
		E x0 = x, y0 = y;
		int kx0 = kx, ky0 = ky;
		if (alignIFP(x, kx, y, ky)) {
			switch (op) {
			case K::FEQ: return mkEq(x, y);
			case K::FLT: return mkSlt(x, y);
			default: return mkSle(x, y);
			}
		}
		// tiny or huge constant against an integer multiple of 2^k
		for (int s = 0; s < 2; ++s) {
			E p = s ? b : a, q = s ? a : b;
			if (p->op == K::IFP && q->isConst()) {
				double d = ldexp(bitsToD(q->v, q->w), -(s ? ky0 : kx0)); // compare n with d
				E n = s ? y0 : x0;
				if (fabs(d) < 1e18) {
					double fl = floor(d);
					bool isInt = fl == d;
					E c = mkConst((u128)(i128)(i64)fl, 64);
					if (op == K::FEQ)
						return isInt ? mkEq(n, c) : mkFalse();
					if (!s) { // n < d  / n <= d
						if (op == K::FLT)
							return isInt ? mkSlt(n, c) : mkSle(n, c);
						return mkSle(n, c);
					}
					// d < n / d <= n
					if (op == K::FLT)
						return mkSlt(c, n);
					return isInt ? mkSle(c, n) : mkSlt(c, n);
				}
				bool nLess = d > 0;
				if (op == K::FEQ)
					return mkFalse();
				return (s ? !nLess : nLess) ? mkTrue() : mkFalse();
			}
		}
	}
	if (op == K::FEQ && a->id > b->id)
		std::swap(a, b);
	return mk2(op, 1, a, b);
}
E mkSIToFP(E a, int w, bool sgn)
{
	if (a->isConst()) {
		if (w == 32)
			return mkConst(f2bits(sgn ? (float)sextw(a->v, a->w) : (float)a->v), 32);
		return mkConst(d2bits(sgn ? (double)sextw(a->v, a->w) : (double)a->v), 64);
	}
	if (a->w <= 64) {
		E n = nullptr;
		if (sgn)
			n = mkSext(a, 64);
		else if (a->uhi <= ((u64)1 << 53))
			n = mkZext(a, 64);
		if (n && fitsIFP(n, w))
			return mkIFP(n, 0, w);
	}
	return mk1(sgn ? K::SITOFP : K::UITOFP, w, a);
}
E mkFPToI(E a, int w, bool sgn)
{
	if (a->op == K::IFP) {
		int k = (int)(i64)a->v;
		E n = a->a;
		if (k < 0 && k >= -60) // truncation toward zero
			n = mkBin(K::SDIV, n, mkConst((u128)1 << -k, 64));
		else if (k > 0 && k < 10)
			n = mkMul(n, mkConst((u128)1 << k, 64));
		else if (k != 0)
			return mk1(sgn ? K::FPTOSI : K::FPTOUI, w, a);
		if (w >= 64 || (sgn && n->slo >= -((i64)1 << (w - 1)) && n->shi < ((i64)1 << (w - 1))) || (!sgn && n->slo >= 0 && n->uhi <= (u64)maskw(w)))
			return w <= 64 ? mkExtract(n, 0, w) : mkSext(n, w);
	}
	return mk1(sgn ? K::FPTOSI : K::FPTOUI, w, a);
}
E mkFPCvt(E a, int w)
{
	if (a->w == w)
		return a;
	if (a->op == K::IFP && fitsIFP(a->a, w))
		return mkIFP(a->a, (int)(i64)a->v, w);
	return mk1(K::FPCVT, w, a);
}
E mkFRound(E a, int mode)
{
	if (a->op == K::IFP) {
		int k = (int)(i64)a->v;
		if (k >= 0)
			return a;
		if (k >= -60 && mode <= 2) {
			E n = a->a, q;
			if (mode == 0)
				q = mkBin(K::ASHR, n, mkConst(-k, 64));
			else if (mode == 1)
				q = mkNeg(mkBin(K::ASHR, mkNeg(n), mkConst(-k, 64)));
			else
				q = mkBin(K::SDIV, n, mkConst((u128)1 << -k, 64));
			return mkIFP(q, 0, a->w);
		}
	}
	return mk1(K::FROUND, a->w, a, mode);
}
E mkFun(int code, E a, E b, int w)
{
	if (a->isConst() && (!b || b->isConst()))
		return mkConst(dToBits(funEval(code, bitsToD(a->v, w), b ? bitsToD(b->v, w) : 0), w), w);
	return intern(K::FUN, w, a, b, nullptr, code);
}

std::string toStr(E e, int d)
{
	static const char* n[] = { "const", "var", "+", "*", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "not", "=", "u<", "u<=", "s<", "s<=", "ite", "concat", "extract", "zext", "sext", "popcnt", "ctlz", "cttz", "bswap", "f+", "f-", "f*", "f/", "frem", "fsqrt", "f=", "f<", "f<=", "funo", "ifp", "sitofp", "uitofp", "fptosi", "fptoui", "fpcvt", "fround", "fun" };
	char buf[64];
	if (e->isConst()) {
		snprintf(buf, sizeof buf, "%llu:%d", (unsigned long long)e->v, e->w);
		return buf;
	}
	if (e->op == K::VAR)
		return g_vars[(size_t)e->v].name.substr(0, g_vars[(size_t)e->v].name.find('|'));
	if (d == 0)
		return "...";
	std::string s = std::string("(") + n[(int)e->op];
	if (e->op == K::EXTRACT || e->op == K::IFP || e->op == K::FUN) {
		snprintf(buf, sizeof buf, "[%d]", (int)e->v);
		s += buf;
	}
	if (e->a) s += " " + toStr(e->a, d - 1);
	if (e->b) s += " " + toStr(e->b, d - 1);
	if (e->c) s += " " + toStr(e->c, d - 1);
	return s + ")";
}

E rebuild(E e, E a, E b, E c)
{
	if (a == e->a && b == e->b && c == e->c)
		return e;
	switch (e->op) {
	case K::ADD: return mkAdd(a, b);
	case K::MUL: return mkMul(a, b);
	case K::UDIV:
	case K::SDIV:
	case K::UREM:
	case K::SREM:
	case K::SHL:
	case K::LSHR:
	case K::ASHR:
	case K::AND:
	case K::OR:
	case K::XOR: return mkBin(e->op, a, b);
	case K::NOT: return mkNot(a);
	case K::EQ: return mkEq(a, b);
	case K::ULT: return mkUlt(a, b);
	case K::ULE: return mkUle(a, b);
	case K::SLT: return mkSlt(a, b);
	case K::SLE: return mkSle(a, b);
	case K::ITE: return mkIte(a, b, c);
	case K::CONCAT: return mkConcat(a, b);
	case K::EXTRACT: return mkExtract(a, (int)e->v, e->w);
	case K::ZEXT: return mkZext(a, e->w);
	case K::SEXT: return mkSext(a, e->w);
	case K::FADD:
	case K::FSUB:
	case K::FMUL:
	case K::FDIV: return mkF(e->op, a, b);
	case K::FEQ:
	case K::FLT:
	case K::FLE:
	case K::FUNO: return mkFCmp(e->op, a, b);
	case K::SITOFP: return mkSIToFP(a, e->w, true);
	case K::UITOFP: return mkSIToFP(a, e->w, false);
	case K::IFP: return mkIFP(a, (int)(i64)e->v, e->w);
	default: return e; // kept as it is
	}
}
