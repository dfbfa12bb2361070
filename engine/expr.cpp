#include "expr.h"
#include <cmath>
#include <cstdio>
#include <algorithm>
#include <map>
#include <set>

const char* opName[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr",
    "eq","ult","ule","slt","sle","ite","zext","sext","extract","concat","fadd","fsub","fmul","fdiv","frem","foeq","folt","fole","funo",
    "ftosi","ftoui","sitof","uitof","ftrunc","fext","fsqrt","fround","uf","aggr"};

std::vector<VarInfo> g_vars;
u64 g_numExprs = 0;
u64 g_evalGen = 1;

// ---------- arena and hash-consing ----------
static Expr** g_tab; static size_t g_tabCap = 0, g_tabN = 0;
static char* g_arena = nullptr; static size_t g_arenaLeft = 0;
static Expr* allocExpr() {
    if (g_arenaLeft < sizeof(Expr)) { g_arenaLeft = 1 << 20; g_arena = (char*)malloc(g_arenaLeft); }
    size_t sz = (sizeof(Expr) + 15) & ~size_t(15);
    if (g_arenaLeft < sz) { g_arenaLeft = 1 << 20; g_arena = (char*)malloc(g_arenaLeft); }
    Expr* e = (Expr*)g_arena; g_arena += sz; g_arenaLeft -= sz;
    memset(e, 0, sizeof(Expr));
    return e;
}
static u32 hashOf(Op op, unsigned w, u32 aux, Expr* a, Expr* b, Expr* c, u128 cv) {
    u64 h = op * 0x9E3779B97F4A7C15ull + w * 0x100000001b3ull + aux;
    auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; };
    mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0); mix((u64)cv); mix((u64)(cv >> 64));
    return (u32)h;
}
static void growTab() {
    size_t nc = g_tabCap ? g_tabCap * 2 : 1 << 16;
    Expr** nt = (Expr**)calloc(nc, sizeof(Expr*));
    for (size_t i = 0; i < g_tabCap; i++) if (g_tab[i]) {
        size_t j = g_tab[i]->hash & (nc - 1);
        while (nt[j]) j = (j + 1) & (nc - 1);
        nt[j] = g_tab[i];
    }
    free(g_tab); g_tab = nt; g_tabCap = nc;
}
static const VarSet g_emptyVS;
struct VSCmp { bool operator()(const VarSet* a, const VarSet* b) const { return a->v < b->v; } };
static std::set<const VarSet*, VSCmp> g_vs;
static const VarSet* internVS(VarSet&& s) {
    if (s.v.empty()) return &g_emptyVS;
    auto it = g_vs.find(&s);
    if (it != g_vs.end()) return *it;
    VarSet* n = new VarSet(std::move(s));
    g_vs.insert(n);
    return n;
}
static std::unordered_map<u64, const VarSet*> g_unionCache;
static const VarSet* unionVS(const VarSet* a, const VarSet* b) {
    if (a == b || b->v.empty()) return a;
    if (a->v.empty()) return b;
    if (a > b) std::swap(a, b);
    u64 key = ((u64)(uintptr_t)a >> 4) * 0x9E3779B97F4A7C15ull ^ ((u64)(uintptr_t)b >> 4);
    // key collisions are resolved by checking membership sizes below: store pair explicitly instead
    static std::map<std::pair<const VarSet*, const VarSet*>, const VarSet*> cache;
    (void)key;
    auto it = cache.find({a, b});
    if (it != cache.end()) return it->second;
    VarSet s; s.v.reserve(a->v.size() + b->v.size());
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(s.v));
    const VarSet* r = internVS(std::move(s));
    cache[{a, b}] = r;
    return r;
}

static inline u128 umaxOf(unsigned w) { return maskW(w); }
static void setTop(Expr* e) {
    unsigned w = e->w;
    if (w > 64) { e->umin = 0; e->umax = ~0ull; e->smin = INT64_MIN; e->smax = INT64_MAX; e->kz = e->ko = 0; return; }
    e->umin = 0; e->umax = mask64(w);
    e->smin = w == 64 ? INT64_MIN : -(1ll << (w - 1));
    e->smax = w == 64 ? INT64_MAX : (1ll << (w - 1)) - 1;
    e->kz = ~mask64(w); e->ko = 0;
}
static void refine(Expr* e) {
    unsigned w = e->w; if (w > 64) return;
    u64 M = mask64(w);
    // known bits -> unsigned interval
    u64 lo = e->ko & M, hi = ~e->kz & M;
    if (lo > e->umin) e->umin = lo;
    if (hi < e->umax) e->umax = hi;
    // unsigned interval <-> signed interval
    u64 half = 1ull << (w - 1);
    if (e->umax < half || e->umin >= half) {
        i64 a = sext64(e->umin, w), b = sext64(e->umax, w);
        if (a > e->smin) e->smin = a;
        if (b < e->smax) e->smax = b;
    }
    if (e->smin >= 0) {
        if ((u64)e->smin > e->umin) e->umin = e->smin;
        if ((u64)e->smax < e->umax) e->umax = e->smax;
    } else if (e->smax < 0) {
        u64 a = (u64)e->smin & M, b = (u64)e->smax & M;
        if (a > e->umin) e->umin = a;
        if (b < e->umax) e->umax = b;
    }
    // unsigned interval -> known leading zeros
    if (e->umax < M) {
        int nb = e->umax ? 64 - __builtin_clzll(e->umax) : 0;
        e->kz |= ~mask64(nb);
    }
}
static void analyse(Expr* e) {
    setTop(e);
    unsigned w = e->w;
    Expr *a = e->a[0], *b = e->a[1], *c = e->a[2];
    if (w > 64) return;
    u64 M = mask64(w);
    i64 smn = w == 64 ? INT64_MIN : -(1ll << (w - 1)), smx = w == 64 ? INT64_MAX : (1ll << (w - 1)) - 1;
    auto setU = [&](u128 lo, u128 hi) { if (hi <= M && lo <= hi) { e->umin = lo; e->umax = hi; } };
    auto setS = [&](i128 lo, i128 hi) { if (lo >= smn && hi <= smx && lo <= hi) { e->smin = lo; e->smax = hi; } };
    switch (e->op) {
    case CONST: e->umin = e->umax = (u64)e->cv; e->smin = e->smax = sext64((u64)e->cv, w); e->ko = (u64)e->cv; e->kz = ~(u64)e->cv; return;
    case VAR: { VarInfo& v = g_vars[e->aux]; if (v.ranged) { i64 lo = (i64)v.lo, hi = (i64)v.hi;
        if (v.sgn) setS(lo, hi); else setU((u64)lo, (u64)hi); } break; }
    case ADD: setU((u128)a->umin + b->umin, (u128)a->umax + b->umax); setS((i128)a->smin + b->smin, (i128)a->smax + b->smax);
        { u64 z = a->kz & b->kz & M; // common trailing zeros
          u64 t = ~(a->kz & b->kz); int tz = t ? __builtin_ctzll(t) : 64; if (tz > (int)w) tz = w; e->kz |= mask64(tz); (void)z; }
        break;
    case SUB: if (a->umin >= b->umax) setU((u128)a->umin - b->umax, (u128)a->umax - b->umin);
        setS((i128)a->smin - b->smax, (i128)a->smax - b->smin); break;
    case MUL: { setU((u128)a->umin * b->umin, (u128)a->umax * b->umax);
        i128 p[4] = {(i128)a->smin * b->smin, (i128)a->smin * b->smax, (i128)a->smax * b->smin, (i128)a->smax * b->smax};
        bool ok = true; // avoid overflow of i128: operands are 64 bit, fine
        if (ok) setS(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); break; }
    case UDIV: if (b->umin > 0) setU(a->umin / b->umax, a->umax / b->umin); break;
    case UREM: if (b->umin > 0) setU(0, std::min(a->umax, b->umax - 1)); break;
    case SDIV: if (b->smin > 0 && a->smin >= 0) setS(a->smin / b->smax, a->smax / b->smin);
        else if (b->smin > 0) { i64 m = std::max(a->smax, a->smin == INT64_MIN ? INT64_MAX : -a->smin); setS(-(i128)m, m); } break;
    case SREM: if (b->smin > 0) { i64 lo = a->smin >= 0 ? 0 : -(b->smax - 1), hi = a->smax <= 0 ? 0 : b->smax - 1;
        if (a->smin > lo) lo = std::min<i64>(a->smin, 0); if (a->smax < hi) hi = std::max<i64>(a->smax, 0); setS(lo, hi); } break;
    case AND: e->kz |= (a->kz | b->kz); e->ko = a->ko & b->ko; setU(0, std::min(a->umax, b->umax)); break;
    case OR: e->kz |= (a->kz & b->kz); e->ko = a->ko | b->ko; setU(std::max(a->umin, b->umin), M); break;
    case XOR: e->kz |= ((a->kz & b->kz) | (a->ko & b->ko)) & M; e->ko = (a->ko & b->kz) | (a->kz & b->ko); break;
    case SHL: if (b->isConst() && b->cv < w) { unsigned s = b->c(); e->kz |= (a->kz << s) | mask64(s); e->ko = (a->ko << s) & M; setU((u128)a->umin << s, (u128)a->umax << s); setS((i128)a->smin << s, (i128)a->smax << s); }
        else if (b->umax < w) { setU((u128)a->umin << b->umin, (u128)a->umax << b->umax); }
        break;
    case LSHR: if (b->isConst() && b->cv < w) { unsigned s = b->c(); e->kz |= ((a->kz & M) >> s) | (s ? ~(M >> s) : 0); e->ko = (a->ko & M) >> s; setU(a->umin >> s, a->umax >> s); }
        else setU(0, a->umax); break;
    case ASHR: if (b->isConst() && b->cv < w) { unsigned s = b->c(); setS(a->smin >> s, a->smax >> s); } else { setS(std::min<i64>(a->smin, 0), std::max<i64>(a->smax, 0)); } break;
    case ITE: e->umin = std::min(b->umin, c->umin); e->umax = std::max(b->umax, c->umax); e->smin = std::min(b->smin, c->smin); e->smax = std::max(b->smax, c->smax);
        e->kz |= b->kz & c->kz; e->ko = b->ko & c->ko; break;
    case ZEXT: setU(a->umin, a->umax); e->kz = a->kz | ~mask64(a->w); e->ko = a->ko; break;
    case SEXT: setS(a->smin, a->smax); break;
    case EXTRACT: if (a->w <= 64) { e->kz |= (a->kz >> e->aux); e->kz |= ~M; e->ko = (a->ko >> e->aux) & M;
        if (e->aux == 0 && a->umax <= M) setU(a->umin, a->umax);
        if (e->aux == 0 && a->smin >= smn && a->smax <= smx) setS(a->smin, a->smax);
        if (e->aux && (a->umax >> e->aux) <= M) setU(a->umin >> e->aux, a->umax >> e->aux); } break;
    case CONCAT: if (a->w <= 64 && b->w <= 64) { setU(((u128)a->umin << b->w) + b->umin, ((u128)a->umax << b->w) + b->umax);
        e->kz |= ((a->kz << b->w) | (b->kz & mask64(b->w))); e->ko = ((a->ko << b->w) | b->ko) & M; } break;
    default: break;
    }
    refine(e);
}

static FX* newFX(Expr* i, int k) { FX* f = new FX; f->i = i; f->k = k; return f; }

static Expr* intern(Op op, unsigned w, u32 aux, Expr* a, Expr* b, Expr* c, u128 cv) {
    if (g_tabN * 2 >= g_tabCap) growTab();
    u32 h = hashOf(op, w, aux, a, b, c, cv);
    size_t j = h & (g_tabCap - 1);
    while (Expr* e = g_tab[j]) {
        if (e->hash == h && e->op == op && e->w == w && e->aux == aux && e->a[0] == a && e->a[1] == b && e->a[2] == c && e->cv == cv) return e;
        j = (j + 1) & (g_tabCap - 1);
    }
    Expr* e = allocExpr();
    e->op = op; e->w = w; e->aux = aux; e->hash = h; e->id = ++g_numExprs; e->a[0] = a; e->a[1] = b; e->a[2] = c; e->cv = cv;
    if (op == VAR) { VarSet s; s.v.push_back(aux); e->vars = internVS(std::move(s)); }
    else {
        const VarSet* v = &g_emptyVS;
        for (int i = 0; i < 3; i++) if (e->a[i]) v = unionVS(v, e->a[i]->vars);
        e->vars = v;
    }
    e->fp = op >= FADD && op <= UF;
    for (int i = 0; i < 3; i++) if (e->a[i] && e->a[i]->fp) e->fp = true;
    analyse(e);
    g_tab[j] = e; g_tabN++;
    return e;
}

Expr* mkC(unsigned w, u128 v) { return intern(CONST, w, 0, 0, 0, 0, v & maskW(w)); }

static std::map<std::string, Expr*> g_varByKey;
Expr* mkVar(const std::string& name, unsigned w, bool ranged, i64 lo, i64 hi) {
    std::string key = name + "/" + std::to_string(w) + "/" + (ranged ? std::to_string(lo) + "," + std::to_string(hi) : "*");
    auto it = g_varByKey.find(key);
    if (it != g_varByKey.end()) return it->second;
    VarInfo vi; vi.name = name; vi.w = w; vi.ranged = ranged; vi.lo = lo; vi.hi = hi; vi.sgn = lo < 0;
    if (ranged && lo == hi) { Expr* e = mkC(w, (u64)lo); g_varByKey[key] = e; return e; }
    u32 id = g_vars.size(); g_vars.push_back(vi);
    Expr* e = intern(VAR, w, id, 0, 0, 0, 0);
    g_varByKey[key] = e;
    return e;
}

// ---------- constant folding ----------
static double asD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
static u128 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static u128 fromF(float d) { u32 x; memcpy(&x, &d, 4); return x; }
static long double asX(u128 v) { long double d = 0; memcpy(&d, &v, 10); return d; }
static u128 fromX(long double d) { u128 x = 0; memcpy(&x, &d, 10); return x; }
#define FPSEL(wa, EXPR) ((wa) == 64 ? ({ typedef double T; (void)sizeof(T); auto A = asD(a); auto B = asD(b); (void)A; (void)B; u128 r_ = (u128)(EXPR); r_; }) : 0)
template <class T> static T asT(u128 v);
template <> double asT<double>(u128 v) { return asD(v); }
template <> float asT<float>(u128 v) { return asF(v); }
template <> long double asT<long double>(u128 v) { return asX(v); }
static u128 fromT(double d) { return fromD(d); }
static u128 fromT(float d) { return fromF(d); }
static u128 fromT(long double d) { return fromX(d); }
template <class T> static T froundT(u32 m, T x) {
    switch (m) { case 0: return std::floor(x); case 1: return std::ceil(x); case 2: return std::trunc(x); case 3: return std::rint(x); default: return std::round(x); }
}
template <class T> static u128 ffold(Op op, unsigned w, u32 aux, u128 a, u128 b) {
    T A = asT<T>(a), B = asT<T>(b);
    switch (op) {
    case FADD: return fromT((T)(A + B)); case FSUB: return fromT((T)(A - B)); case FMUL: return fromT((T)(A * B)); case FDIV: return fromT((T)(A / B));
    case FREM: return fromT((T)std::fmod(A, B));
    case FOEQ: return A == B; case FOLT: return A < B; case FOLE: return A <= B; case FUNO: return A != A || B != B;
    case FTOSI: { if (!(A > (T)-9.3e18 && A < (T)9.3e18)) return (u128)0x8000000000000000ull & maskW(w); return (u128)(i128)(i64)A & maskW(w); }
    case FTOUI: { if (!(A > (T)-9.3e18 && A < (T)1.8446744073709552e19)) return (u128)0x8000000000000000ull & maskW(w);
        if (A < 0) return (u128)(u64)(i64)A & maskW(w); return (u128)(u64)A & maskW(w); }
    case FTRUNC: case FEXT: return w == 64 ? fromD((double)A) : w == 32 ? fromF((float)A) : fromX((long double)A);
    case FSQRT: return fromT((T)std::sqrt(A));
    case FROUND: return fromT(froundT<T>(aux, A));
    default: return 0;
    }
}
double (*g_ufTable[32])(double, double);
u128 foldOp(Op op, unsigned w, u32 aux, u128 a, u128 b, unsigned wa) {
    u128 M = maskW(w);
    switch (op) {
    case ADD: return (a + b) & M; case SUB: return (a - b) & M; case MUL: return (a * b) & M;
    case UDIV: return b ? a / b : M; case UREM: return b ? a % b : a;
    case SDIV: { if (!b) return (sext128(a, w) < 0 ? (u128)1 : M) & M; i128 x = sext128(a, w), y = sext128(b, w); if (y == -1) return (u128)(-x) & M; return (u128)(x / y) & M; }
    case SREM: { if (!b) return a; i128 x = sext128(a, w), y = sext128(b, w); if (y == -1) return 0; return (u128)(x % y) & M; }
    case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << (unsigned)b) & M; case LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case ASHR: { i128 x = sext128(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & M; }
    case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b;
    case SLT: return sext128(a, wa) < sext128(b, wa); case SLE: return sext128(a, wa) <= sext128(b, wa);
    case ZEXT: return a; case SEXT: return (u128)sext128(a, wa) & M;
    case EXTRACT: return (a >> aux) & M;
    case SITOF: { i64 x = (i64)sext128(a, wa); return w == 64 ? fromD((double)x) : w == 32 ? fromF((float)x) : fromX((long double)x); }
    case UITOF: { u64 x = (u64)a; return w == 64 ? fromD((double)x) : w == 32 ? fromF((float)x) : fromX((long double)x); }
    case UF: { double r = g_ufTable[aux](asD(a), asD(b)); return w == 64 ? fromD(r) : fromF((float)r); }
    default:
        if (wa == 64) return ffold<double>(op, w, aux, a, b);
        if (wa == 32) return ffold<float>(op, w, aux, a, b);
        return ffold<long double>(op, w, aux, a, b);
    }
}

// ---------- constructors ----------
Expr* mkNot(Expr* a) {
    if (a->isConst()) return mkC(1, !a->cv);
    if (a->op == XOR && a->a[1]->isConst()) return a->a[0];
    if (a->op == ULT) return mkBin(ULE, a->a[1], a->a[0]);
    if (a->op == ULE) return mkBin(ULT, a->a[1], a->a[0]);
    if (a->op == SLT) return mkBin(SLE, a->a[1], a->a[0]);
    if (a->op == SLE) return mkBin(SLT, a->a[1], a->a[0]);
    return intern(XOR, 1, 0, a, mkC(1, 1), 0, 0);
}
static bool constLeafIte(Expr* e) { return e->op == ITE && e->a[1]->isConst() && e->a[2]->isConst(); }
static bool isComm(Op op) { return op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ; }

static std::map<std::pair<Expr*, unsigned>, Expr*> g_bitMemo;
static Expr* bitOf(Expr* e, unsigned k) {
    if (e->w == 1) return e;
    if (e->w <= 64) {
        if ((e->kz >> k) & 1) return mkC(1, 0);
        if ((e->ko >> k) & 1) return mkC(1, 1);
    }
    if (e->isConst()) return mkC(1, (e->cv >> k) & 1);
    auto key = std::make_pair(e, k);
    auto it = g_bitMemo.find(key);
    if (it != g_bitMemo.end()) return it->second;
    Expr* r = nullptr;
    switch (e->op) {
    case AND: r = mkBin(AND, bitOf(e->a[0], k), bitOf(e->a[1], k)); break;
    case OR: r = mkBin(OR, bitOf(e->a[0], k), bitOf(e->a[1], k)); break;
    case XOR: r = mkBin(XOR, bitOf(e->a[0], k), bitOf(e->a[1], k)); break;
    case ITE: r = mkIte(e->a[0], bitOf(e->a[1], k), bitOf(e->a[2], k)); break;
    case ZEXT: r = k < e->a[0]->w ? bitOf(e->a[0], k) : mkC(1, 0); break;
    case SEXT: r = bitOf(e->a[0], std::min<unsigned>(k, e->a[0]->w - 1)); break;
    case EXTRACT: r = bitOf(e->a[0], k + e->aux); break;
    case CONCAT: r = k < e->a[1]->w ? bitOf(e->a[1], k) : bitOf(e->a[0], k - e->a[1]->w); break;
    case SHL: if (e->a[1]->isConst()) r = k >= e->a[1]->cv ? bitOf(e->a[0], k - e->a[1]->c()) : mkC(1, 0); break;
    case LSHR: if (e->a[1]->isConst()) r = k + e->a[1]->cv < e->w ? bitOf(e->a[0], k + e->a[1]->c()) : mkC(1, 0); break;
    default: break;
    }
    if (!r) r = intern(EXTRACT, 1, k, e, 0, 0, 0);
    g_bitMemo[key] = r;
    return r;
}

static void fxBin(Expr* e);
static Expr* fxBitEq(Expr* e, Expr* c);


// ---------- polynomial normal form for comparisons of integer arithmetic ----------
// The value of an expression as an integer (no wrap-around at any node that is opened) is written as a polynomial
// over opaque sub-expressions; one bit conditions are 0/1 and idempotent.  Differences that cancel are decided here.
typedef std::map<std::vector<Expr*>, i128> Poly;
struct PolyCtx { std::unordered_map<Expr*, Poly> memo; int nodes = 0; bool fail = false; };
static const size_t POLY_MAX = 96;
static i128 cabs128(i128 x) { return x < 0 ? -x : x; }
static void pAdd(PolyCtx& c, Poly& p, const Poly& q, i128 k) { for (auto& m : q) { i128 v = (p[m.first] += m.second * k); if (!v) p.erase(m.first); if (cabs128(v) > ((i128)1 << 90)) c.fail = true; } if (p.size() > POLY_MAX) c.fail = true; }
static Poly pMul(PolyCtx& c, const Poly& a, const Poly& b) {
    Poly r; if (a.size() * b.size() > 400) { c.fail = true; return r; }
    for (auto& x : a) for (auto& y : b) {
        std::vector<Expr*> m = x.first; m.insert(m.end(), y.first.begin(), y.first.end());
        std::sort(m.begin(), m.end(), [](Expr* p, Expr* q) { return p->id < q->id; });
        std::vector<Expr*> n; for (Expr* e : m) if (!(e->w == 1 && !n.empty() && n.back() == e)) n.push_back(e);
        if (cabs128(x.second) > ((i128)1 << 60) || cabs128(y.second) > ((i128)1 << 60) || n.size() > 8) { c.fail = true; return r; }
        i128 v = (r[n] += x.second * y.second); if (!v) r.erase(n);
    }
    if (r.size() > POLY_MAX) c.fail = true;
    return r;
}
static const Poly& toPoly(PolyCtx& c, Expr* e) {
    auto it = c.memo.find(e); if (it != c.memo.end()) return it->second;
    Poly r; Expr *a = e->a[0], *b = e->a[1];
    auto atom = [&] { r.clear(); r[{e}] = 1; };
    auto cst = [&](i128 v) { Poly q; if (v) q[{}] = v; return q; };
    if (++c.nodes > 400) c.fail = true;
    if (c.fail) { static Poly empty; return empty; }
    unsigned w = e->w;
    i128 smn = w <= 64 ? -((i128)1 << (w - 1)) : 0, smx = w <= 64 ? ((i128)1 << (w - 1)) - 1 : 0;
    if (w > 64 || e->fp) atom();
    else if (w == 1) {
        if (e->op == CONST) r = cst(e->c() ? 1 : 0);
        else if (e->op == XOR) { const Poly x = toPoly(c, a), y = toPoly(c, b); pAdd(c, r, x, 1); pAdd(c, r, y, 1); pAdd(c, r, pMul(c, x, y), -2); }
        else if (e->op == AND) { const Poly x = toPoly(c, a), y = toPoly(c, b); r = pMul(c, x, y); }
        else if (e->op == OR) { const Poly x = toPoly(c, a), y = toPoly(c, b); pAdd(c, r, x, 1); pAdd(c, r, y, 1); pAdd(c, r, pMul(c, x, y), -1); }
        else atom();
    } else switch (e->op) {
    case CONST: r = cst(sext64(e->c(), w)); break;
    case ADD: case SUB: { i128 lo = e->op == ADD ? (i128)a->smin + b->smin : (i128)a->smin - b->smax, hi = e->op == ADD ? (i128)a->smax + b->smax : (i128)a->smax - b->smin;
        if (lo < smn || hi > smx) { atom(); break; }
        pAdd(c, r, toPoly(c, a), 1); pAdd(c, r, toPoly(c, b), e->op == ADD ? 1 : -1); break; }
    case MUL: { i128 p[4] = {(i128)a->smin * b->smin, (i128)a->smin * b->smax, (i128)a->smax * b->smin, (i128)a->smax * b->smax};
        if (*std::min_element(p, p + 4) < smn || *std::max_element(p, p + 4) > smx) { atom(); break; }
        const Poly x = toPoly(c, a), y = toPoly(c, b); r = pMul(c, x, y); break; }
    case SHL: if (b->isConst() && b->cv < 62 && ((i128)a->smin << b->c()) >= smn && ((i128)a->smax << b->c()) <= smx) pAdd(c, r, toPoly(c, a), (i128)1 << b->c()); else atom(); break;
    case SEXT: if (a->w > 1) r = toPoly(c, a); else pAdd(c, r, toPoly(c, a), -1); break;
    case ZEXT: if (a->w == 1 || a->smin >= 0) r = toPoly(c, a); else atom(); break;
    case EXTRACT: if (e->aux == 0 && a->w <= 64 && a->smin >= smn && a->smax <= smx) r = toPoly(c, a); else atom(); break;
    case ITE: { const Poly cc = toPoly(c, a), x = toPoly(c, b), y = toPoly(c, e->a[2]); Poly d; pAdd(c, d, x, 1); pAdd(c, d, y, -1); if (c.fail) break; r = y; pAdd(c, r, pMul(c, cc, d), 1); break; }
    default: atom();
    }
    return c.memo[e] = r;
}
static bool polyArith(Expr* e) { return e->op == ADD || e->op == SUB || e->op == MUL || e->op == SHL || e->op == SEXT || (e->op == ITE && e->w > 1) || (e->op == ZEXT && e->a[0]->w > 1); }
struct PKey { Op op; Expr *a, *b; bool operator==(const PKey& o) const { return op == o.op && a == o.a && b == o.b; } };
struct PHash { size_t operator()(const PKey& k) const { return ((size_t)k.a->id * 1000003u + k.b->id) * 31 + k.op; } };
static std::unordered_map<PKey, Expr*, PHash> g_polyMemo;
// decides a (op) b, op one of EQ, SLT, SLE, or rewrites it without the terms common to both sides; 0 if nothing is gained
static Expr* polyCmp(Op op, Expr* a, Expr* b) {
    unsigned w = a->w; if (w > 64 || w < 8 || a->fp || b->fp || !(polyArith(a) || polyArith(b))) return nullptr;
    if (b->isConst() && !(a->op == SUB || a->op == ADD)) return nullptr;
    PKey key{op, a, b}; auto it = g_polyMemo.find(key); if (it != g_polyMemo.end()) return it->second;
    Expr*& res = g_polyMemo[key]; res = nullptr;
    PolyCtx c; Poly d; size_t na = toPoly(c, a).size(), nb = toPoly(c, b).size(); if (c.fail) return nullptr;
    pAdd(c, d, toPoly(c, a), 1); pAdd(c, d, toPoly(c, b), -1); if (c.fail) return nullptr;
    i128 lo = 0, hi = 0;
    for (auto& m : d) {
        i128 l = 1, h = 1;
        for (Expr* e : m.first) { i128 el = e->w == 1 ? 0 : e->smin, eh = e->w == 1 ? 1 : e->smax; if (cabs128(l) > ((i128)1 << 60) || cabs128(h) > ((i128)1 << 60)) return nullptr; i128 p[4] = {l * el, l * eh, h * el, h * eh}; l = *std::min_element(p, p + 4); h = *std::max_element(p, p + 4); }
        if (cabs128(l) > ((i128)1 << 64) || cabs128(h) > ((i128)1 << 64) || cabs128(m.second) > ((i128)1 << 40)) return nullptr;
        if (m.second > 0) lo += l * m.second, hi += h * m.second; else lo += h * m.second, hi += l * m.second;
    }
    bool t, f;
    if (op == EQ) { t = lo == 0 && hi == 0; f = lo > 0 || hi < 0; } else if (op == SLT) { t = hi < 0; f = lo >= 0; } else { t = hi <= 0; f = lo > 0; }
    if (t || f) return res = mkC(1, t);
    if (d.size() + 2 > na + nb || d.size() > 6) return nullptr;
    // rebuild with the remaining terms on both sides
    Expr *P = mkC(w, 0), *Q = mkC(w, 0); i128 plo = 0, phi = 0, qlo = 0, qhi = 0; i128 lim = (i128)1 << (w - 1);
    for (auto& m : d) {
        if (m.first.size() > 1 || cabs128(m.second) > 1000000) return nullptr;
        Expr* x = mkC(w, (u128)cabs128(m.second)); i128 l = cabs128(m.second), h = l;
        if (m.first.size()) { Expr* e = m.first[0]; if (e->w > w || (e->w > 1 && e->smin < 0 && false)) return nullptr; Expr* v = e->w == 1 ? mkZExt(e, w) : mkSExt(e, w); l *= e->w == 1 ? 0 : e->smin; h *= e->w == 1 ? 1 : e->smax; if (l < -lim || h >= lim) return nullptr; x = mkBin(MUL, v, x); }
        if (m.second > 0) { P = mkBin(ADD, P, x); plo += l; phi += h; } else { Q = mkBin(ADD, Q, x); qlo += l; qhi += h; }
        if (plo < -lim || qlo < -lim || phi >= lim || qhi >= lim) return nullptr;
    }
    Expr* r = mkBin(op, P, Q);
    return g_polyMemo[key] = r;
}

Expr* mkBin(Op op, Expr* a, Expr* b) {
    unsigned w = a->w;
    bool cmp = op >= EQ && op <= SLE;
    unsigned rw = cmp ? 1 : w;
    if (a->isConst() && b->isConst()) return mkC(rw, foldOp(op, rw, 0, a->cv, b->cv, w));
    if (isComm(op)) { if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b); }
    u128 M = maskW(w);
    // identities
    switch (op) {
    case ADD: if (b->isConst()) { if (!b->cv) return a; if (a->op == ADD && a->a[1]->isConst()) return mkBin(ADD, a->a[0], mkC(w, a->a[1]->cv + b->cv)); } break;
    case SUB: if (a == b) return mkC(w, 0); if (b->isConst()) return mkBin(ADD, a, mkC(w, -b->cv));
        if (a->op == ADD) { if (a->a[0] == b) return a->a[1]; if (a->a[1] == b) return a->a[0]; 
            if (a->a[1]->isConst() && b->op == ADD && b->a[1]->isConst() && a->a[0] == b->a[0]) return mkC(w, a->a[1]->cv - b->a[1]->cv); }
        break;
    case MUL: if (b->isConst()) { if (!b->cv) return b; if (b->cv == 1) return a;
        if ((b->cv & (b->cv - 1)) == 0) { unsigned s = 0; while (((b->cv >> s) & 1) == 0) s++; return mkBin(SHL, a, mkC(w, s)); } } break;
    case UDIV: if (b->isConst()) { if (b->cv == 1) return a; if (b->cv && (b->cv & (b->cv - 1)) == 0) { unsigned s = 0; while (((b->cv >> s) & 1) == 0) s++; return mkBin(LSHR, a, mkC(w, s)); } } break;
    case UREM: if (b->isConst() && b->cv && (b->cv & (b->cv - 1)) == 0) return mkBin(AND, a, mkC(w, b->cv - 1));
        if (w <= 64 && a->umax < b->umin) return a; break;
    case SDIV: if (b->isConst() && b->cv == 1) return a;
        if (w <= 64 && a->smin >= 0 && b->smin > 0) return mkBin(UDIV, a, b);
        // exact division of a scaled value (pointer differences)
        if (b->isConst() && a->op == SHL && w <= 64 && a->a[1]->isConst() && b->cv == ((u128)1 << a->a[1]->c()) && a->a[0]->smax < (1ll << (62 - a->a[1]->c())) && a->a[0]->smin > -(1ll << (62 - a->a[1]->c()))) return a->a[0];
        break;
    case SREM: if (w <= 64 && a->smin >= 0 && b->smin > 0) return mkBin(UREM, a, b); break;
    case AND: if (a == b) return a; if (b->isConst()) { if (!b->cv) return b; if (b->cv == M) return a;
            if (w <= 64 && (((u64)b->cv | a->kz) & mask64(w)) == mask64(w)) return a;
            if (a->op == AND && a->a[1]->isConst()) return mkBin(AND, a->a[0], mkC(w, a->a[1]->cv & b->cv));
            if (w <= 64 && w > 1 && b->cv && (b->cv & (b->cv - 1)) == 0) { unsigned k = __builtin_ctzll(b->c()); Expr* bit = bitOf(a, k);
                return mkBin(SHL, mkZExt(bit, w), mkC(w, k)); }
        }
        if (w == 1 && (a == mkNot(b))) return mkC(1, 0);
        break;
    case OR: if (a == b) return a; if (b->isConst()) { if (!b->cv) return a; if (b->cv == M) return b; if (w <= 64 && (b->c() & ~a->ko) == 0) return a; 
            if (a->op == OR && a->a[1]->isConst()) return mkBin(OR, a->a[0], mkC(w, a->a[1]->cv | b->cv)); }
        if (w == 1 && (a == mkNot(b))) return mkC(1, 1);
        break;
    case XOR: if (a == b) return mkC(w, 0); if (b->isConst()) { if (!b->cv) return a; if (w == 1) return mkNot(a);
            if (a->op == XOR && a->a[1]->isConst()) return mkBin(XOR, a->a[0], mkC(w, a->a[1]->cv ^ b->cv)); } break;
    case SHL: if (b->isConst()) { if (!b->cv) return a; if (b->cv >= w) return mkC(w, 0);
            if (a->op == SHL && a->a[1]->isConst()) { u128 s = a->a[1]->cv + b->cv; return s >= w ? mkC(w, 0) : mkBin(SHL, a->a[0], mkC(w, s)); }
            if (a->op == LSHR && a->a[1]->isConst() && a->a[1]->cv == b->cv) return mkBin(AND, a->a[0], mkC(w, M & (M << b->c()))); }
        break;
    case LSHR: if (b->isConst()) { if (!b->cv) return a; if (b->cv >= w) return mkC(w, 0);
            if (w <= 64 && (a->umax >> b->c()) == 0) return mkC(w, 0);
            if (a->op == LSHR && a->a[1]->isConst()) { u128 s = a->a[1]->cv + b->cv; return s >= w ? mkC(w, 0) : mkBin(LSHR, a->a[0], mkC(w, s)); }
            if (a->op == SHL && a->a[1]->isConst() && a->a[1]->cv == b->cv && w <= 64 && (a->a[0]->umax >> (w - b->c())) == 0) return a->a[0]; }
        break;
    case ASHR: if (b->isConst() && !b->cv) return a;
        if (w <= 64 && a->smin >= 0) return mkBin(LSHR, a, b);
        if (b->isConst() && a->op == SHL && a->a[1]->isConst() && a->a[1]->cv == b->cv && w <= 64) { Expr* x = a->a[0]; unsigned s = b->c();
            if (x->smax <= (INT64_MAX >> s >> (64 - w)) && x->smin >= (INT64_MIN >> s >> (64 - w))) return x; }
        break;
    case EQ:
        if (a == b) return mkC(1, 1);
        if (w <= 64) {
            if (a->umax < b->umin || b->umax < a->umin || a->smax < b->smin || b->smax < a->smin) return mkC(1, 0);
            if ((a->ko & b->kz & mask64(w)) || (a->kz & b->ko & mask64(w))) return mkC(1, 0);
        }
        if (w == 1) { if (b->isConst()) return b->cv ? a : mkNot(a); return mkNot(mkBin(XOR, a, b)); }
        if (b->isConst() && a->fx) { if (Expr* r = fxBitEq(a, b)) return r; }
        if (b->isConst()) {
            if (a->op == ZEXT) { if (b->cv >> a->a[0]->w) return mkC(1, 0); return mkBin(EQ, a->a[0], mkC(a->a[0]->w, b->cv)); }
            if (a->op == SEXT) { unsigned aw = a->a[0]->w; u128 t = b->cv & maskW(aw); if (((u128)sext128(t, aw) & M) != b->cv) return mkC(1, 0); return mkBin(EQ, a->a[0], mkC(aw, t)); }
            if (a->op == ITE && (a->a[1]->isConst() || a->a[2]->isConst()))
                return mkIte(a->a[0], mkBin(EQ, a->a[1], b), mkBin(EQ, a->a[2], b));
            if (a->op == ADD && a->a[1]->isConst()) return mkBin(EQ, a->a[0], mkC(w, b->cv - a->a[1]->cv));
            if (a->op == XOR && a->a[1]->isConst()) return mkBin(EQ, a->a[0], mkC(w, b->cv ^ a->a[1]->cv));
            if (a->op == SHL && a->a[1]->isConst() && w <= 64) { unsigned s = a->a[1]->c(); if (b->cv & maskW(s)) return mkC(1, 0);
                if ((a->a[0]->umax >> (w - s)) == 0) return mkBin(EQ, a->a[0], mkC(w, b->cv >> s)); }
            if (a->op == CONCAT) { unsigned lw = a->a[1]->w; return mkAnd(mkBin(EQ, a->a[0], mkC(a->a[0]->w, b->cv >> lw)), mkBin(EQ, a->a[1], mkC(lw, b->cv))); }
            if (a->op == EXTRACT && a->w == 1) {}
        }
        if (a->op == ZEXT && b->op == ZEXT && a->a[0]->w == b->a[0]->w) return mkBin(EQ, a->a[0], b->a[0]);
        if (a->op == SEXT && b->op == SEXT && a->a[0]->w == b->a[0]->w) return mkBin(EQ, a->a[0], b->a[0]);
        if (a->op == ADD && b->op == ADD && a->a[1] == b->a[1]) return mkBin(EQ, a->a[0], b->a[0]);
        if (Expr* r = polyCmp(EQ, a, b)) return r;
        break;
    case ULT:
        if (a == b) return mkC(1, 0);
        if (w <= 64) { if (a->umax < b->umin) return mkC(1, 1); if (a->umin >= b->umax) return mkC(1, 0);
            if (b->isConst() && b->cv == 1) return mkEq(a, mkC(w, 0)); }
        if (constLeafIte(a) && b->isConst()) return mkIte(a->a[0], mkBin(op, a->a[1], b), mkBin(op, a->a[2], b));
        if (constLeafIte(b) && a->isConst()) return mkIte(b->a[0], mkBin(op, a, b->a[1]), mkBin(op, a, b->a[2]));
        if (a->op == ZEXT && b->op == ZEXT && a->a[0]->w == b->a[0]->w) return mkBin(ULT, a->a[0], b->a[0]);
        if (w <= 64 && a->smin >= 0 && b->smin >= 0) if (Expr* r = polyCmp(SLT, a, b)) return r;
        break;
    case ULE:
        if (a == b) return mkC(1, 1);
        if (w <= 64) { if (a->umax <= b->umin) return mkC(1, 1); if (a->umin > b->umax) return mkC(1, 0);
            if (a->isConst() && a->cv == 1) return mkNot(mkEq(b, mkC(w, 0))); }
        if (constLeafIte(a) && b->isConst()) return mkIte(a->a[0], mkBin(op, a->a[1], b), mkBin(op, a->a[2], b));
        if (constLeafIte(b) && a->isConst()) return mkIte(b->a[0], mkBin(op, a, b->a[1]), mkBin(op, a, b->a[2]));
        if (w <= 64 && a->smin >= 0 && b->smin >= 0) if (Expr* r = polyCmp(SLE, a, b)) return r;
        break;
    case SLT:
        if (a == b) return mkC(1, 0);
        if (w <= 64) { if (a->smax < b->smin) return mkC(1, 1); if (a->smin >= b->smax) return mkC(1, 0);
            if (a->smin >= 0 && b->smin >= 0) return mkBin(ULT, a, b); }
        if (constLeafIte(a) && b->isConst()) return mkIte(a->a[0], mkBin(op, a->a[1], b), mkBin(op, a->a[2], b));
        if (Expr* r = polyCmp(SLT, a, b)) return r;
        break;
    case SLE:
        if (a == b) return mkC(1, 1);
        if (w <= 64) { if (a->smax <= b->smin) return mkC(1, 1); if (a->smin > b->smax) return mkC(1, 0);
            if (a->smin >= 0 && b->smin >= 0) return mkBin(ULE, a, b); }
        if (Expr* r = polyCmp(SLE, a, b)) return r;
        break;
    default: break;
    }
    // push arithmetic with a constant into constant-leaf ITEs
    if (!cmp && b->isConst() && constLeafIte(a)) return mkIte(a->a[0], mkBin(op, a->a[1], b), mkBin(op, a->a[2], b));
    if (!cmp && a->isConst() && constLeafIte(b)) return mkIte(b->a[0], mkBin(op, a, b->a[1]), mkBin(op, a, b->a[2]));
    Expr* e = intern(op, rw, 0, a, b, 0, 0);
    if (e->w <= 64 && e->umin == e->umax) return mkC(e->w, e->umin);
    if (e->w <= 64 && e->smin == e->smax) return mkC(e->w, (u64)e->smin);
    if ((op == XOR || op == AND) && (w == 64 || w == 32) && b->isConst()) fxBin(e);
    return e;
}

Expr* mkIte(Expr* c, Expr* a, Expr* b) {
    if (c->isConst()) return c->cv ? a : b;
    if (a == b) return a;
    if (c->op == XOR && c->w == 1 && c->a[1]->isConst()) return mkIte(c->a[0], b, a);
    if (a->w == 1) {
        if (a->isConst() && b->isConst()) return a->cv ? c : mkNot(c);
        if (a->isConst()) return a->cv ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (b->isConst()) return b->cv ? mkOr(mkNot(c), a) : mkAnd(c, a);
        if (a == c) return mkOr(c, b);
        if (b == c) return mkAnd(c, a);
    }
    if (a->op == ITE && a->a[0] == c) a = a->a[1];
    if (b->op == ITE && b->a[0] == c) b = b->a[2];
    if (a == b) return a;
    if (b->op == ITE && b->a[1] == a && a->w > 1) return mkIte(mkOr(c, b->a[0]), a, b->a[2]);
    if (b->op == ITE && b->a[2] == a && a->w > 1) return mkIte(mkAnd(mkNot(c), b->a[0]), b->a[1], a);
    if (a->op == ITE && a->a[1] == b && a->w > 1) return mkIte(mkAnd(c, mkNot(a->a[0])), a->a[2], b);
    if (a->op == ITE && a->a[2] == b && a->w > 1) return mkIte(mkAnd(c, a->a[0]), a->a[1], b);
    if (a->w > 1 && a->isConst() && b->isConst() && a->cv == 1 && b->cv == 0) return mkZExt(c, a->w);
    if (a->w > 1 && a->isConst() && b->isConst() && a->cv == 0 && b->cv == 1) return mkZExt(mkNot(c), a->w);
    Expr* e = intern(ITE, a->w, 0, c, a, b, 0);
    if (!e->fx && (e->w == 64 || e->w == 32) && (a->fx || b->fx || (a->isConst() && b->isConst()))) {
        FX x, y;
        if ((a->fx || b->fx) && getFX(a, x) && getFX(b, y)) {
            int k = std::max(x.k, y.k);
            if (k - x.k < 60 && k - y.k < 60) {
                Expr* xi = mkBin(SHL, x.i, mkC(64, k - x.k)); Expr* yi = mkBin(SHL, y.i, mkC(64, k - y.k));
                i128 lim = (i128)1 << 61;
                auto inr = [&](Expr* q, int s) { return ((i128)q->smax << s) < lim && ((i128)q->smin << s) > -lim; };
                if (inr(x.i, k - x.k) && inr(y.i, k - y.k)) e->fx = newFX(mkIte(c, xi, yi), k);
            }
        }
    }
    return e;
}
Expr* mkZExt(Expr* a, unsigned w) {
    if (a->w == w) return a;
    if (a->isConst()) return mkC(w, a->cv);
    if (a->op == ZEXT) return mkZExt(a->a[0], w);
    if (a->op == EXTRACT && a->aux == 0 && a->a[0]->w == w && w <= 64 && a->w < 64 && a->a[0]->umax <= mask64(a->w)) return a->a[0];
    if (constLeafIte(a)) return mkIte(a->a[0], mkZExt(a->a[1], w), mkZExt(a->a[2], w));
    return intern(ZEXT, w, 0, a, 0, 0, 0);
}
Expr* mkSExt(Expr* a, unsigned w) {
    if (a->w == w) return a;
    if (a->isConst()) return mkC(w, (u128)sext128(a->cv, a->w));
    if (a->op == ZEXT) return mkZExt(a->a[0], w);
    if (a->op == SEXT) return mkSExt(a->a[0], w);
    if (a->op == EXTRACT && a->aux == 0 && a->a[0]->w == w && w <= 64 && a->w < 64 && a->a[0]->smin >= -(1ll << (a->w - 1)) && a->a[0]->smax < (1ll << (a->w - 1))) return a->a[0];
    if (a->w <= 64 && a->smin >= 0) return mkZExt(a, w);
    if (constLeafIte(a)) return mkIte(a->a[0], mkSExt(a->a[1], w), mkSExt(a->a[2], w));
    return intern(SEXT, w, 0, a, 0, 0, 0);
}
Expr* mkExtract(Expr* a, unsigned off, unsigned w) {
    if (off == 0 && w == a->w) return a;
    if (a->isConst()) return mkC(w, a->cv >> off);
    if (w == 1) return bitOf(a, off);
    if (a->op == EXTRACT) return mkExtract(a->a[0], off + a->aux, w);
    if (a->op == CONCAT) {
        unsigned lw = a->a[1]->w;
        if (off >= lw) return mkExtract(a->a[0], off - lw, w);
        if (off + w <= lw) return mkExtract(a->a[1], off, w);
        return mkConcat(mkExtract(a->a[0], 0, off + w - lw), mkExtract(a->a[1], off, lw - off));
    }
    if (a->op == ZEXT) {
        unsigned aw = a->a[0]->w;
        if (off >= aw) return mkC(w, 0);
        if (off + w <= aw) return mkExtract(a->a[0], off, w);
        return mkZExt(mkExtract(a->a[0], off, aw - off), w);
    }
    if (a->op == SEXT) {
        unsigned aw = a->a[0]->w;
        if (off + w <= aw) return mkExtract(a->a[0], off, w);
        if (off < aw) return mkSExt(mkExtract(a->a[0], off, aw - off), w);
    }
    if (constLeafIte(a)) return mkIte(a->a[0], mkExtract(a->a[1], off, w), mkExtract(a->a[2], off, w));
    if (a->op == ITE) return mkIte(a->a[0], mkExtract(a->a[1], off, w), mkExtract(a->a[2], off, w));
    if (a->op == LSHR && a->a[1]->isConst() && off + w + a->a[1]->cv <= a->w) return mkExtract(a->a[0], off + a->a[1]->c(), w);
    if ((a->op == AND || a->op == OR || a->op == XOR) && !a->fp) return mkBin(a->op, mkExtract(a->a[0], off, w), mkExtract(a->a[1], off, w));
    if (off == 0 && (a->op == ADD || a->op == SUB || a->op == MUL) && !a->fp && w >= 8) return mkBin(a->op, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w));
    Expr* e = intern(EXTRACT, w, off, a, 0, 0, 0);
    if (e->w <= 64 && e->umin == e->umax) return mkC(w, e->umin);
    return e;
}
Expr* mkConcat(Expr* hi, Expr* lo) {
    unsigned w = hi->w + lo->w;
    if (hi->isConst() && lo->isConst()) return mkC(w, (hi->cv << lo->w) | lo->cv);
    if (hi->isConst() && hi->cv == 0) return mkZExt(lo, w);
    if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a[0] == lo->a[0] && hi->aux == lo->aux + lo->w) return mkExtract(lo->a[0], lo->aux, w);
    if (hi->op == EXTRACT && hi->a[0] == lo && hi->aux == lo->w) return mkExtract(lo, 0, w);
    return intern(CONCAT, w, 0, hi, lo, 0, 0);
}

// ---------- floating point with exact dyadic shadow ----------
static const i64 LIM53 = 1ll << 53, LIM24 = 1ll << 24;
static bool fits(Expr* i, unsigned w) { i64 l = w == 64 ? LIM53 : LIM24; return i->smin >= -l && i->smax <= l; }
static void fxNorm(FX& f) { // drop common trailing zero bits
    if (f.i->isConst()) {
        i64 v = sext64(f.i->c(), 64);
        if (v == 0) { f.k = 0; return; }
        int z = __builtin_ctzll((u64)v); if (z > f.k) z = f.k; if (z > 0) { f.i = mkC(64, (u64)(v >> z)); f.k -= z; }
    } else {
        u64 t = ~f.i->kz; int z = t ? __builtin_ctzll(t) : 0; if (z > f.k) z = f.k;
        if (z > 0) { f.i = mkBin(ASHR, f.i, mkC(64, z)); f.k -= z; }
    }
}
bool getFX(Expr* e, FX& out) {
    if (e->fx) { out = *e->fx; return true; }
    if (e->isConst() && (e->w == 64 || e->w == 32)) {
        double d = e->w == 64 ? asD(e->cv) : (double)asF(e->cv);
        if (!(std::fabs(d) < 4.5e15)) return false;
        if (d == 0) { out.i = mkC(64, 0); out.k = 0; return true; }
        int ex; double m = std::frexp(d, &ex); // d = m * 2^ex, 0.5<=|m|<1
        i64 mi = (i64)std::ldexp(m, 53); int k = 53 - ex;
        int z = __builtin_ctzll((u64)mi); mi >>= z; k -= z;
        if (k < 0) { mi = mi << (-k); k = 0; }
        if (k > 900) return false;
        out.i = mkC(64, (u64)mi); out.k = k; return true;
    }
    return false;
}
static bool fxAlign(const FX& x, const FX& y, Expr*& xi, Expr*& yi, int& k) {
    k = std::max(x.k, y.k);
    if (k - x.k > 60 || k - y.k > 60) return false;
    i128 lim = (i128)1 << 61;
    auto inr = [&](Expr* q, int s) { return ((i128)q->smax << s) < lim && ((i128)q->smin << s) > -lim; };
    if (!inr(x.i, k - x.k) || !inr(y.i, k - y.k)) return false;
    xi = mkBin(SHL, x.i, mkC(64, k - x.k)); yi = mkBin(SHL, y.i, mkC(64, k - y.k));
    return true;
}
static void setFX(Expr* e, FX f) { if (!e->fx && !e->isConst()) { fxNorm(f); if (fits(f.i, e->w)) e->fx = newFX(f.i, f.k); } }
static Expr* fxConst(Expr* e) { // an FX expression whose integer part is constant is a constant
    if (e->fx && e->fx->i->isConst()) { i64 v = sext64(e->fx->i->c(), 64);
        if (v != 0) { double d = std::ldexp((double)v, -e->fx->k); return mkC(e->w, e->w == 64 ? fromD(d) : fromF((float)d)); } }
    return e;
}
static bool neverNegZero(Expr* e, int d = 0) {
    if (d > 24) return false;
    switch (e->op) {
    case CONST: return (e->w == 64 ? (u64)e->cv != 0x8000000000000000ull : (u32)e->cv != 0x80000000u);
    case SITOF: case UITOF: return true;
    case FADD: return neverNegZero(e->a[0], d + 1) || neverNegZero(e->a[1], d + 1);
    case FSUB: return neverNegZero(e->a[0], d + 1);
    case FMUL: case FDIV: { if (e->op == FMUL && e->a[0] == e->a[1]) return true;
        FX x, y; return getFX(e->a[0], x) && getFX(e->a[1], y) && x.i->smin >= 0 && y.i->smin >= 0 && neverNegZero(e->a[0], d + 1) && neverNegZero(e->a[1], d + 1); }
    case FEXT: case FTRUNC: return e->fx && neverNegZero(e->a[0], d + 1);
    case ITE: return neverNegZero(e->a[1], d + 1) && neverNegZero(e->a[2], d + 1);
    default: return false;
    }
}
// bit equality of an exactly shadowed value with a constant, as an integer comparison (0 when not expressible)
static Expr* fxBitEq(Expr* e, Expr* c) {
    double v = c->w == 64 ? asD(c->cv) : (double)asF(c->cv);
    if (!(v - v == 0)) return mkC(1, 0);
    if (v == 0) { if (!neverNegZero(e)) return nullptr; if (std::signbit(v)) return mkC(1, 0); return mkBin(EQ, e->fx->i, mkC(64, 0)); }
    double sc = std::ldexp(v, e->fx->k);
    if (std::floor(sc) != sc || std::fabs(sc) > 9007199254740992.0) return mkC(1, 0);
    return mkBin(EQ, e->fx->i, mkC(64, (u64)(i64)sc));
}
static void fxBin(Expr* e) { // sign-bit tricks: fneg and fabs
    FX f; u64 sm = 1ull << (e->w - 1);
    if (!e->a[0]->fx) return;
    f = *e->a[0]->fx;
    if (e->op == XOR && e->a[1]->c() == sm) setFX(e, FX{mkBin(SUB, mkC(64, 0), f.i), f.k});
    if (e->op == AND && e->a[1]->c() == sm - 1) setFX(e, FX{f.i->smin >= 0 ? f.i : mkIte(mkBin(SLT, f.i, mkC(64, 0)), mkBin(SUB, mkC(64, 0), f.i), f.i), f.k});
}
Expr* mkFAbs(Expr* a) { return mkBin(AND, a, mkC(a->w, maskW(a->w) >> 1)); }
Expr* mkFNeg(Expr* a) { return mkBin(XOR, a, mkC(a->w, (u128)1 << (a->w - 1))); }

Expr* mkFBin(Op op, Expr* a, Expr* b) {
    unsigned w = a->w;
    if (a->isConst() && b->isConst()) return mkC(w, foldOp(op, w, 0, a->cv, b->cv, w));
    if (w > 64) return intern(op, w, 0, a, b, 0, 0);
    // push through constant-leaf ites
    if (constLeafIte(a) && b->isConst()) return mkIte(a->a[0], mkFBin(op, a->a[1], b), mkFBin(op, a->a[2], b));
    if (constLeafIte(b) && a->isConst()) return mkIte(b->a[0], mkFBin(op, a, b->a[1]), mkFBin(op, a, b->a[2]));
    if ((op == FMUL || op == FDIV) && b->isConst() && b->cv == (w == 64 ? fromD(1.0) : fromF(1.0f))) return a;
    if (op == FMUL && a->isConst() && a->cv == (w == 64 ? fromD(1.0) : fromF(1.0f))) return b;
    u128 nz = (u128)1 << (w - 1);
    if ((op == FADD && b->isConst() && b->cv == nz) || (op == FSUB && b->isConst() && b->cv == 0)) return a;
    if (op == FADD && a->isConst() && a->cv == nz) return b;
    // x + (c ? v : -0.0) is how the optimizer writes "if (c) x += v"
    if ((op == FADD || op == FSUB) && b->op == ITE && a->fx) { u128 id = op == FADD ? nz : 0;
        if ((b->a[1]->isConst() && b->a[1]->cv == id) || (b->a[2]->isConst() && b->a[2]->cv == id)) return mkIte(b->a[0], mkFBin(op, a, b->a[1]), mkFBin(op, a, b->a[2])); }
    if (op == FADD && a->op == ITE && b->fx && ((a->a[1]->isConst() && a->a[1]->cv == nz) || (a->a[2]->isConst() && a->a[2]->cv == nz))) return mkIte(a->a[0], mkFBin(op, a->a[1], b), mkFBin(op, a->a[2], b));
    Expr* e = intern(op, w, 0, a, b, 0, 0);
    if (e->fx) return fxConst(e);
    FX x, y;
    if (!getFX(a, x) || !getFX(b, y)) return e;
    Expr *xi, *yi; int k;
    switch (op) {
    case FADD: if (fxAlign(x, y, xi, yi, k)) setFX(e, FX{mkBin(ADD, xi, yi), k}); break;
    case FSUB: if (fxAlign(x, y, xi, yi, k)) setFX(e, FX{mkBin(SUB, xi, yi), k}); break;
    case FMUL: { i128 m1 = std::max<i128>((i128)x.i->smax, -(i128)x.i->smin), m2 = std::max<i128>((i128)y.i->smax, -(i128)y.i->smin);
        if (m1 * m2 <= (i128)1 << 60) setFX(e, FX{mkBin(MUL, x.i, y.i), x.k + y.k}); break; }
    case FDIV: if (b->isConst()) { // divide by a power of two
            i64 v = sext64(y.i->c(), 64);
            if (v != 0 && ((v & (v - 1)) == 0 || ((-v) & (-v - 1)) == 0)) {
                bool neg = v < 0; u64 av = neg ? -v : v; int s = __builtin_ctzll(av);
                Expr* i = neg ? mkBin(SUB, mkC(64, 0), x.i) : x.i; int kk = x.k + s - y.k;
                if (kk < 0) { if (-kk < 50 && ((i128)i->smax << -kk) <= LIM53 && ((i128)i->smin << -kk) >= -LIM53) { i = mkBin(SHL, i, mkC(64, -kk)); kk = 0; } else break; }
                setFX(e, FX{i, kk});
            }
        } break;
    case FREM: if (y.i->smin > 0 && fxAlign(x, y, xi, yi, k)) setFX(e, FX{mkBin(SREM, xi, yi), k}); break;
    default: break;
    }
    return fxConst(e);
}
Expr* mkFCmp(Op op, Expr* a, Expr* b) {
    unsigned w = a->w;
    if (a->isConst() && b->isConst()) return mkC(1, foldOp(op, 1, 0, a->cv, b->cv, w));
    if (w > 64) return intern(op, 1, 0, a, b, 0, 0);
    FX x, y;
    bool fa = getFX(a, x), fb = getFX(b, y);
    if (op == FUNO && (a->fx || b->fx)) {
        auto finite = [&](Expr* e, bool f) { if (f) return true; if (e->isConst()) { double d = w == 64 ? asD(e->cv) : asF(e->cv); return !std::isnan(d); } return false; };
        if (finite(a, fa) && finite(b, fb)) return mkC(1, 0);
        if (fa && b->isConst()) return mkC(1, 1);
        if (fb && a->isConst()) return mkC(1, 1);
        if (fa && a->fx && !b->isConst()) return mkFCmp(FUNO, b, b);
        if (fb && b->fx && !a->isConst()) { if (a != b) return mkFCmp(FUNO, a, a); }
    }
    Expr *xi, *yi; int k;
    if (fa && fb && op != FUNO && fxAlign(x, y, xi, yi, k)) return mkBin(op == FOEQ ? EQ : op == FOLT ? SLT : SLE, xi, yi);
    // comparison with an arbitrary constant
    if (op != FUNO && ((a->fx && b->isConst()) || (b->fx && a->isConst()))) {
        bool cr = b->isConst(); Expr* ce = cr ? b : a; FX f = cr ? x : y;
        long double d = w == 64 ? asD(ce->cv) : asF(ce->cv);
        if (std::isnan((double)d)) return mkC(1, 0);
        long double t = std::ldexp(d, f.k); // exact in 80-bit unless out of range
        if (op == FOEQ) { if (std::fabs(t) > 4e18L || std::floor(t) != t) return mkC(1, 0); return mkBin(EQ, f.i, mkC(64, (u64)(i64)t)); }
        if (cr) { // i < t  <=> i < ceil(t) ;  i <= t <=> i <= floor(t)
            if (t > 4e18L) return mkC(1, 1); if (t < -4e18L) return mkC(1, 0);
            if (op == FOLT) return mkBin(SLT, f.i, mkC(64, (u64)(i64)std::ceil(t)));
            return mkBin(SLE, f.i, mkC(64, (u64)(i64)std::floor(t)));
        } else { // t < i <=> floor(t) < i ; t <= i <=> ceil(t) <= i
            if (t > 4e18L) return mkC(1, 0); if (t < -4e18L) return mkC(1, 1);
            if (op == FOLT) return mkBin(SLT, mkC(64, (u64)(i64)std::floor(t)), f.i);
            return mkBin(SLE, mkC(64, (u64)(i64)std::ceil(t)), f.i);
        }
    }
    if (a->op == ITE && b->isConst() && (a->a[1]->isConst() || a->a[2]->isConst() || (a->a[1]->fx || a->a[2]->fx))) return mkIte(a->a[0], mkFCmp(op, a->a[1], b), mkFCmp(op, a->a[2], b));
    if (b->op == ITE && a->isConst() && (b->a[1]->isConst() || b->a[2]->isConst() || (b->a[1]->fx || b->a[2]->fx))) return mkIte(b->a[0], mkFCmp(op, a, b->a[1]), mkFCmp(op, a, b->a[2]));
    if (a->op == ITE && (fb || b->op == ITE)) return mkIte(a->a[0], mkFCmp(op, a->a[1], b), mkFCmp(op, a->a[2], b));
    if (b->op == ITE && fa) return mkIte(b->a[0], mkFCmp(op, a, b->a[1]), mkFCmp(op, a, b->a[2]));
    if (a == b && op == FOLT) return mkC(1, 0);
    return intern(op, 1, 0, a, b, 0, 0);
}
Expr* mkFToI(Op op, Expr* a, unsigned w) {
    if (a->isConst()) return mkC(w, foldOp(op, w, 0, a->cv, 0, a->w));
    if (constLeafIte(a)) return mkIte(a->a[0], mkFToI(op, a->a[1], w), mkFToI(op, a->a[2], w));
    if (a->fx) {
        FX f = *a->fx; Expr* r;
        if (f.k >= 63) { r = nullptr; }
        else if (f.i->smin >= 0) r = mkBin(LSHR, f.i, mkC(64, f.k));
        else { Expr* neg = mkBin(SUB, mkC(64, 0), f.i); r = mkIte(mkBin(SLT, f.i, mkC(64, 0)), mkBin(SUB, mkC(64, 0), mkBin(LSHR, neg, mkC(64, f.k))), mkBin(LSHR, f.i, mkC(64, f.k))); }
        if (r) { if (w <= 64) return mkExtract(r, 0, w); return mkSExt(r, w); }
    }
    return intern(op, w, 0, a, 0, 0, 0);
}
Expr* mkIToF(Op op, Expr* a, unsigned w) {
    if (a->isConst()) return mkC(w, foldOp(op, w, 0, a->cv, 0, a->w));
    if (constLeafIte(a)) return mkIte(a->a[0], mkIToF(op, a->a[1], w), mkIToF(op, a->a[2], w));
    if (a->op == ZEXT && a->a[0]->w == 1 && w <= 64) return mkIte(a->a[0], mkC(w, w == 64 ? fromD(1) : fromF(1)), mkC(w, 0));
    if (a->w == 1 && w <= 64) return mkIte(a, mkC(w, w == 64 ? (op == UITOF ? fromD(1) : fromD(-1)) : fromF(op == UITOF ? 1 : -1)), mkC(w, 0));
    Expr* e = intern(op, w, 0, a, 0, 0, 0);
    if (!e->fx && w <= 64 && a->w <= 64) {
        if (op == UITOF && a->umax <= (u64)(w == 64 ? LIM53 : LIM24)) setFX(e, FX{mkZExt(a, 64), 0});
        if (op == SITOF) { Expr* s = mkSExt(a, 64); if (fits(s, w)) setFX(e, FX{s, 0}); }
    }
    return e;
}
Expr* mkFConv(Op op, Expr* a, unsigned w) {
    if (a->isConst()) return mkC(w, foldOp(op, w, 0, a->cv, 0, a->w));
    if (constLeafIte(a)) return mkIte(a->a[0], mkFConv(op, a->a[1], w), mkFConv(op, a->a[2], w));
    Expr* e = intern(op, w, 0, a, 0, 0, 0);
    if (!e->fx && a->fx && w <= 64) setFX(e, *a->fx);
    return e;
}
Expr* mkFSqrt(Expr* a) {
    if (a->isConst()) return mkC(a->w, foldOp(FSQRT, a->w, 0, a->cv, 0, a->w));
    if (constLeafIte(a)) return mkIte(a->a[0], mkFSqrt(a->a[1]), mkFSqrt(a->a[2]));
    return intern(FSQRT, a->w, 0, a, 0, 0, 0);
}
Expr* mkFRound(unsigned mode, Expr* a) {
    if (a->isConst()) return mkC(a->w, foldOp(FROUND, a->w, mode, a->cv, 0, a->w));
    if (constLeafIte(a)) return mkIte(a->a[0], mkFRound(mode, a->a[1]), mkFRound(mode, a->a[2]));
    Expr* e = intern(FROUND, a->w, mode, a, 0, 0, 0);
    if (!e->fx && a->fx && a->fx->k < 62) {
        FX f = *a->fx; Expr* i = f.i; Expr* k = mkC(64, f.k); Expr* r;
        Expr* fl = mkBin(ASHR, i, k);
        Expr* back = mkBin(SHL, fl, k);
        Expr* frac = mkBin(SUB, i, back); // 0 <= frac < 2^k
        Expr* one = mkC(64, 1); Expr* up = mkBin(ADD, fl, one);
        if (f.k == 0) r = i;
        else {
            Expr* half = mkC(64, 1ull << (f.k - 1));
            switch (mode) {
            case 0: r = fl; break;
            case 1: r = mkIte(mkEq(frac, mkC(64, 0)), fl, up); break;
            case 2: r = mkIte(mkAnd(mkBin(SLT, i, mkC(64, 0)), mkNot(mkEq(frac, mkC(64, 0)))), up, fl); break;
            case 3: r = mkIte(mkBin(ULT, frac, half), fl, mkIte(mkBin(ULT, half, frac), up, mkIte(bitOf(fl, 0), up, fl))); break;
            default: r = mkIte(mkBin(ULT, frac, half), fl, mkIte(mkBin(ULT, half, frac), up, mkIte(mkBin(SLT, i, mkC(64, 0)), fl, up))); break;
            }
        }
        setFX(e, FX{r, 0});
    }
    return e;
}
Expr* mkUF(u32 fn, unsigned w, Expr* a, Expr* b) { return intern(UF, w, fn, a, b, 0, 0); }

// ---------- evaluation ----------
u128 evalExpr(Expr* e, const Model& m, u64 gen) {
    if (e->op == CONST) return e->cv;
    if (e->evGen == gen) return e->evVal;
    u128 r;
    switch (e->op) {
    case VAR: r = e->aux < m.size() ? m[e->aux] : 0; r &= maskW(e->w); break;
    case ITE: r = evalExpr(e->a[0], m, gen) ? evalExpr(e->a[1], m, gen) : evalExpr(e->a[2], m, gen); break;
    case CONCAT: r = (evalExpr(e->a[0], m, gen) << e->a[1]->w) | evalExpr(e->a[1], m, gen); break;
    default: {
        u128 x = evalExpr(e->a[0], m, gen), y = e->a[1] ? evalExpr(e->a[1], m, gen) : 0;
        r = foldOp(e->op, e->w, e->aux, x, y, e->a[0]->w);
    } }
    e->evGen = gen; e->evVal = r;
    return r;
}

std::string exprStr(Expr* e, int depth) {
    char buf[64];
    if (e->op == CONST) { snprintf(buf, 64, "0x%llx:%u", (unsigned long long)e->c(), e->w); return buf; }
    if (e->op == VAR) return g_vars[e->aux].name;
    if (depth <= 0) return "...";
    std::string s = std::string("(") + opName[e->op];
    if (e->op == EXTRACT) s += "@" + std::to_string(e->aux) + ":" + std::to_string(e->w);
    for (int i = 0; i < 3; i++) if (e->a[i]) s += " " + exprStr(e->a[i], depth - 1);
    return s + ")";
}
