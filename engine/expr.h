// Hash-consed bit-vector / floating-point expression DAG.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

enum class K : uint8_t {
	CONST, VAR,
	ADD, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR, NOT,
	EQ, ULT, ULE, SLT, SLE,
	ITE, CONCAT, EXTRACT, ZEXT, SEXT, POPCNT, CTLZ, CTTZ, BSWAP,
	// floating point (width 32 or 64, result is the IEEE bit pattern; comparisons are width 1)
	FADD, FSUB, FMUL, FDIV, FREM, FSQRT, FEQ, FLT, FLE, FUNO,
	IFP, // v = exponent k (signed), child a = signed 64-bit integer n: value n * 2^k, exactly representable
	SITOFP, UITOFP, FPTOSI, FPTOUI, FPCVT, FROUND, // FROUND v: 0 floor 1 ceil 2 trunc 3 rint 4 round
	FUN  // library function of doubles, v = function code
};

struct VarSet {
	std::vector<uint32_t> v;
};

struct Expr {
	K op;
	uint8_t w;
	bool fp;      // contains a floating point operation
	bool hasIte;  // contains an ITE
	bool nonlin;  // contains a multiplication of two non-constants
	uint32_t id;
	const Expr *a, *b, *c;
	u128 v;
	u64 ulo, uhi; // unsigned bounds (w <= 64)
	i64 slo, shi; // signed bounds (w <= 64)
	const VarSet* vars;
	mutable uint32_t epoch;
	mutable u128 ev;
	bool isConst() const { return op == K::CONST; }
	u64 cv() const { return (u64)v; }
};
typedef const Expr* E;

struct Model {
	std::vector<u128> val;
	u128 get(uint32_t i) const { return i < val.size() ? val[i] : 0; }
	void set(uint32_t i, u128 x)
	{
		if (i >= val.size())
			val.resize(i + 1, 0);
		val[i] = x;
	}
};

struct VarInfo {
	std::string name;
	int w;
	E e;
};

extern std::vector<VarInfo> g_vars;

inline u128 maskw(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextw(u128 x, int w)
{
	if (w >= 128)
		return (i128)x;
	u128 m = (u128)1 << (w - 1);
	x &= maskw(w);
	return (i128)((x ^ m) - m);
}

E mkConst(u128 v, int w);
E mkVar(const std::string& name, int w, u64 ulo, u64 uhi, bool sgn = false, i64 slo = 0, i64 shi = 0);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkNeg(E a);
E mkMul(E a, E b);
E mkBin(K op, E a, E b); // UDIV..XOR
E mkNot(E a);
E mkEq(E a, E b);
E mkUlt(E a, E b);
E mkUle(E a, E b);
E mkSlt(E a, E b);
E mkSle(E a, E b);
E mkIte(E c, E t, E f);
E mkConcat(E hi, E lo);
E mkExtract(E a, int lo, int w);
E mkZext(E a, int w);
E mkSext(E a, int w);
E mkUn(K op, E a); // POPCNT CTLZ CTTZ BSWAP
E mkF(K op, E a, E b);
E mkFNeg(E a);
E mkFAbs(E a);
E mkFSqrt(E a);
E mkFCmp(K op, E a, E b);
E mkIFP(E n, int k, int w);
E mkSIToFP(E a, int w, bool sgn);
E mkFPToI(E a, int w, bool sgn);
E mkFPCvt(E a, int w);
E mkFRound(E a, int mode);
E mkFun(int code, E a, E b, int w);
inline E mkAnd(E a, E b) { return mkBin(K::AND, a, b); }
inline E mkOr(E a, E b) { return mkBin(K::OR, a, b); }
E mkTrue();
E mkFalse();

u128 evalE(E e, const Model& m);
u128 foldOp(const Expr* e, u128 a, u128 b, u128 c);
double bits2d(u64 b);
u64 d2bits(double d);
float bits2f(u64 b);
u64 f2bits(float d);
size_t exprCount();
// equalities settled by the polynomial normal form: identical terms, equal polynomials, and a sample of the latter
extern u64 g_nfSame, g_nfProved;
extern std::vector<std::pair<E, E>> g_nfPairs;
std::string toStr(E e, int depth = 6);
E rebuild(E e, E a, E b, E c); // the same operation on other operands
int funCode(const std::string& name, int& nargs); // -1 when unknown
const char* funName(int code);
double funEval(int code, double a, double b);
