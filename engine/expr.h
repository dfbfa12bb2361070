// Hash-consed bit-vector / floating-point expression DAG.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;

enum Op : uint8_t {
    CONST, VAR,
    ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    EQ, ULT, ULE, SLT, SLE, ITE, ZEXT, SEXT, EXTRACT, CONCAT,
    FADD, FSUB, FMUL, FDIV, FREM, FOEQ, FOLT, FOLE, FUNO,
    FTOSI, FTOUI, SITOF, UITOF, FTRUNC, FEXT, FSQRT, FROUND /*aux: 0 floor 1 ceil 2 trunc 3 rint 4 round*/,
    UF /*aux: function id*/,
    AGGR
};
extern const char* opName[];

struct Expr;
struct FX { Expr* i; int k; };          // value == i * 2^-k exactly, i signed 64 bit
struct VarSet { std::vector<u32> v; };   // sorted variable ids

struct Expr {
    Op op; uint8_t w8; uint16_t w;
    u32 aux; u32 id; u32 hash;
    Expr* a[3];
    u128 cv;
    u64 umin, umax; i64 smin, smax; u64 kz, ko;
    const VarSet* vars;
    FX* fx;
    u64 evGen; u128 evVal;
    void* z3;
    bool fp;     // contains floating-point operations
    bool isConst() const { return op == CONST; }
    u64 c() const { return (u64)cv; }
};

struct Agg;
struct V { Expr* e; u64 c; };

inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sext64(u64 v, unsigned w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w)) >> (64 - w)); }
inline i128 sext128(u128 v, unsigned w) { return w >= 128 ? (i128)v : ((i128)(v << (128 - w)) >> (128 - w)); }

struct VarInfo { std::string name; unsigned w; u64 lo, hi; bool ranged; bool sgn; };
extern std::vector<VarInfo> g_vars;
extern u64 g_numExprs;

Expr* mkC(unsigned w, u128 v);
Expr* mkVar(const std::string& name, unsigned w, bool ranged, i64 lo, i64 hi);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkZExt(Expr* a, unsigned w);
Expr* mkSExt(Expr* a, unsigned w);
Expr* mkExtract(Expr* a, unsigned off, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkNot(Expr* a);        // w == 1
inline Expr* mkAnd(Expr* a, Expr* b) { return mkBin(AND, a, b); }
inline Expr* mkOr(Expr* a, Expr* b) { return mkBin(OR, a, b); }
inline Expr* mkEq(Expr* a, Expr* b) { return mkBin(EQ, a, b); }
// floating point
Expr* mkFBin(Op op, Expr* a, Expr* b);
Expr* mkFCmp(Op op, Expr* a, Expr* b);
Expr* mkFToI(Op op, Expr* a, unsigned w);
Expr* mkIToF(Op op, Expr* a, unsigned w);
Expr* mkFConv(Op op, Expr* a, unsigned w);
Expr* mkFSqrt(Expr* a);
Expr* mkFRound(unsigned mode, Expr* a);
Expr* mkUF(u32 fn, unsigned w, Expr* a, Expr* b);
Expr* mkFAbs(Expr* a);
Expr* mkFNeg(Expr* a);
bool getFX(Expr* e, FX& out);
std::string exprStr(Expr* e, int depth = 6);

// model evaluation
typedef std::vector<u64> Model;
u128 evalExpr(Expr* e, const Model& m, u64 gen);
extern u64 g_evalGen;

// native arithmetic on constants
u128 foldOp(Op op, unsigned w, u32 aux, u128 a, u128 b, unsigned wa);
extern double (*g_ufTable[32])(double, double);
