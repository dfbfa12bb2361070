// Symbolic executor for LLVM IR.
#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <deque>
#include <functional>
#include <algorithm>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <numeric>
using namespace llvm;

// ------------------------------------------------------------------ globals
static LLVMContext g_ctx;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::unordered_map<const Function*, FnInfo*> g_fns;
static std::unordered_map<const GlobalValue*, u64> g_gaddr;
static std::vector<FnInfo*> g_fnByObj; // obj id -> fn
static std::map<std::string, i64> g_params;
static std::map<std::string, i64> g_paramsUsed;
static u64 g_maxSteps = 30000000; static double g_maxTime = 600; static u64 g_maxMemMB = 3500;
static int g_loadFork = 0; static unsigned g_enumLimit = 300; static int g_fpFork = 1; static int g_maxPreempt = 1000;
static int g_samples = 6; static int g_maxViol = 4;
static bool g_trace = false;
static std::string g_out, g_entry;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double g_t0;

struct Violation { std::string kind, id, msg, loc; std::vector<std::pair<std::string, u64>> inputs; std::vector<std::pair<std::string, u64>> notes; };
struct Sample { std::vector<std::pair<std::string, u64>> inputs; std::vector<std::pair<std::string, u64>> notes; std::string end; };
static struct Stats {
    u64 paths = 0, assumeEnds = 0, forks = 0, branches = 0, steps = 0, asserts = 0, assertQueries = 0, discharged = 0, symLoads = 0, instrSeen = 0, concForks = 0, maxPathSteps = 0;
    std::vector<Violation> viol; std::vector<Sample> samples; std::map<std::string, u64> covers; std::map<std::string, u64> assertIds; std::map<std::string, u64> incomplete; bool stopped = false; std::set<std::string> violKeys; u64 violTotal = 0;
} S;
static bool g_stop = false;

// ------------------------------------------------------------------ helpers
static inline V cv(u64 c) { return V{nullptr, c}; }
static inline V ev(Expr* e) { if (e->op == CONST && e->w <= 64) return V{nullptr, (u64)e->cv}; return V{e, 0}; }
static inline Expr* toE(V v, unsigned w) { if (v.e) return v.e; return mkC(w, v.c); }
struct AggBox { std::vector<V> v; };
static V mkAgg(std::vector<V>&& v) { Expr* e = new Expr(); memset((void*)e, 0, sizeof *e); e->op = AGGR; e->z3 = new AggBox{std::move(v)}; return V{e, 0}; }
static inline bool isAgg(V v) { return v.e && v.e->op == AGGR; }
static inline std::vector<V>& aggOf(V v) { return ((AggBox*)v.e->z3)->v; }
static unsigned tw(Type* t) {
    switch (t->getTypeID()) {
    case Type::IntegerTyID: return t->getIntegerBitWidth();
    case Type::PointerTyID: return 64;
    case Type::FloatTyID: return 32;
    case Type::DoubleTyID: return 64;
    case Type::X86_FP80TyID: return 80;
    default: return 0;
    }
}
static const u64 LOWB = 0x40000000ull;
static inline u64 addrOf(u32 id) { return ((u64)(id + 1) << 32) | LOWB; }
static inline bool splitAddr(u64 a, u32& id, i64& off) { u64 h = a >> 32; if (h == 0) return false; id = h - 1; off = (i64)(a & 0xffffffffull) - (i64)LOWB; return true; }

[[noreturn]] static void unsupported(const std::string& m) { throw PathEnd{3, "unsupported", m}; }
[[noreturn]] static void violate(const std::string& id, const std::string& m) { throw PathEnd{2, id, m}; }

// ------------------------------------------------------------------ memory
static Obj* getObj(State& s, u32 id) { if (id >= s.nObjs) return nullptr; return s.mem[id / CHUNK]->o[id % CHUNK]; }
static Obj* cloneObj(Obj* o) {
    Obj* n = new Obj; n->size = o->size; n->freed = o->freed; n->ro = o->ro; n->kind = o->kind; n->nsym = o->nsym; n->name = o->name;
    if (o->b) { n->b = (uint8_t*)malloc(o->size ? o->size : 1); memcpy(n->b, o->b, o->size); }
    if (o->s) { n->s = (Cell*)malloc(sizeof(Cell) * (o->size ? o->size : 1)); memcpy(n->s, o->s, sizeof(Cell) * o->size); }
    return n;
}
static Obj* getObjW(State& s, u32 id) {
    auto& cp = s.mem[id / CHUNK];
    if (cp.use_count() > 1) cp = std::make_shared<Chunk>(*cp);
    Obj*& o = cp->o[id % CHUNK];
    if (o->ref > 1) { o->ref--; o = cloneObj(o); }
    return o;
}
static u32 allocObj(State& s, u64 size, uint8_t kind, const char* name = nullptr) {
    if (size > (1u << 28)) violate("alloc", "allocation of " + std::to_string(size) + " bytes");
    u32 id = s.nObjs++;
    if (id / CHUNK >= s.mem.size()) s.mem.push_back(std::make_shared<Chunk>());
    auto& cp = s.mem[id / CHUNK];
    if (cp.use_count() > 1) cp = std::make_shared<Chunk>(*cp);
    Obj* o = new Obj; o->size = size; o->kind = kind; o->name = name; o->b = (uint8_t*)calloc(size ? size : 1, 1);
    cp->o[id % CHUNK] = o;
    return id;
}
static void freeObj(State& s, u32 id) { Obj* o = getObjW(s, id); o->freed = true; free(o->b); free(o->s); o->b = nullptr; o->s = nullptr; o->nsym = 0; }

static Obj* checkAccess(State& s, u64 addr, u64 n, bool write, i64& off, u32& id) {
    char buf[160];
    if (!splitAddr(addr, id, off)) { snprintf(buf, sizeof buf, "null or wild pointer access at 0x%llx", (unsigned long long)addr); violate("mem.null", buf); }
    Obj* o = getObj(s, id);
    if (!o) violate("mem.wild", "access through a wild pointer");
    if (o->freed) violate("mem.uaf", o->kind == 2 ? "access to a dead stack object" : "access to freed memory");
    if (o->kind == 3) violate("mem.func", "data access to a function");
    if (off < 0 || off + (i64)n > (i64)o->size) { snprintf(buf, sizeof buf, "out-of-bounds %s: offset %lld size %llu object size %u", write ? "write" : "read", (long long)off, (unsigned long long)n, o->size); violate("mem.oob", buf); }
    if (write && o->ro) violate("mem.ro", "write to constant memory");
    return o;
}
static V readBytes(Obj* o, u64 off, unsigned n) {
    if (o->nsym) {
        bool any = false;
        for (unsigned i = 0; i < n; i++) if (o->s[off + i].e) { any = true; break; }
        if (any) {
            Expr* e0 = o->s[off].e;
            if (e0 && o->s[off].idx == 0 && e0->w == n * 8) {
                bool all = true;
                for (unsigned i = 1; i < n; i++) if (o->s[off + i].e != e0 || o->s[off + i].idx != i) { all = false; break; }
                if (all) return ev(e0);
            }
            Expr* r = nullptr;
            for (unsigned i = 0; i < n;) {
                Cell& c = o->s[off + i];
                Expr* p; unsigned l = 1;
                if (!c.e) { u64 v = o->b[off + i]; p = mkC(8, v); }
                else {
                    while (i + l < n && o->s[off + i + l].e == c.e && o->s[off + i + l].idx == c.idx + l) l++;
                    p = mkExtract(c.e, c.idx * 8, l * 8);
                }
                r = r ? mkConcat(p, r) : p;
                i += l;
            }
            return ev(r);
        }
    }
    if (n <= 8) { u64 v = 0; memcpy(&v, o->b + off, n); return cv(v); }
    u128 v = 0; memcpy(&v, o->b + off, n); return V{mkC(n * 8, v), 0};
}
static void writeBytes(Obj* o, u64 off, unsigned n, V v) {
    if (!v.e || v.e->op == CONST) {
        u128 x = v.e ? v.e->cv : (u128)v.c;
        memcpy(o->b + off, &x, n);
        if (o->nsym) for (unsigned i = 0; i < n; i++) if (o->s[off + i].e) { o->s[off + i].e = nullptr; o->nsym--; }
        return;
    }
    if (!o->s) o->s = (Cell*)calloc(o->size ? o->size : 1, sizeof(Cell));
    for (unsigned i = 0; i < n; i++) { if (!o->s[off + i].e) o->nsym++; o->s[off + i].e = v.e; o->s[off + i].idx = i; }
}
static V readC(State& s, u64 addr, unsigned n) { i64 off; u32 id; Obj* o = checkAccess(s, addr, n, false, off, id); return readBytes(o, off, n); }
static u64 readC64(State& s, u64 addr) { V v = readC(s, addr, 8); if (v.e) unsupported("symbolic value where a concrete one is needed"); return v.c; }
static void writeC(State& s, u64 addr, unsigned n, V v) { i64 off; u32 id; checkAccess(s, addr, n, true, off, id); writeBytes(getObjW(s, id), off, n, v); }
static std::string readStr(State& s, u64 addr) { std::string r; for (int i = 0; i < 400; i++) { V v = readC(s, addr + i, 1); if (v.e) return r + "?"; if (!v.c) break; r += (char)v.c; } return r; }

// ------------------------------------------------------------------ path conditions and forking
static std::deque<State*> g_work;
static State* forkState(State& s) {
    State* n = new State(s); S.forks++;
    for (auto& t : n->th) if (!t.st.empty()) t.st.back() = std::make_shared<Frame>(*t.st.back());
    n->depth++; s.depth++;
    return n;
}
static void learn(State& s, Expr* c) { // simple consequences of a new constraint
    if (c->op == EQ && c->a[1]->isConst() && c->a[1]->w <= 64) {
        s.conc[c->a[0]] = c->a[1]->c();
        if (c->a[0]->op == ZEXT && c->a[0]->a[0]->op != CONST) s.conc[c->a[0]->a[0]] = c->a[1]->c();
    } else if (c->op == XOR && c->w == 1 && c->a[1]->isConst()) s.conc[c->a[0]] = 0;
    else if (c->op == AND && c->w == 1) { learn(s, c->a[0]); learn(s, c->a[1]); }
    if (c->w == 1 && !c->isConst()) s.conc[c] = 1;
}
static void addC(State& s, Expr* c) { if (c->isConst()) return; 
    if (c->op == AND && c->w == 1) { addC(s, c->a[0]); addC(s, c->a[1]); return; }
    for (Expr* x : s.pc) if (x == c) return; s.pc.push_back(c); learn(s, c); }

static Res query(State& s, Expr* c, ModelP& m) {
    Res r = solveSat(s.pc, c, s.model, m);
    if (r == UNKNOWN) throw PathEnd{3, "solver", g_lastUnknown};
    return r;
}
// decides a branch; forks when both sides are feasible.  The forked state takes the other side when it re-executes.
static bool decide(State& s, Expr* c) {
    if (c->isConst()) return c->cv != 0;
    auto it = s.conc.find(c); if (it != s.conc.end()) return it->second != 0;
    if (c->op == XOR && c->a[1]->isConst()) { it = s.conc.find(c->a[0]); if (it != s.conc.end()) return it->second == 0; }
    S.branches++;
    bool d = evalExpr(c, s.model->m, s.model->gen) != 0;
    Expr* yes = d ? c : mkNot(c); Expr* no = d ? mkNot(c) : c;
    ModelP m;
    Res r = query(s, no, m);
    if (r == SAT) {
        State* n = forkState(s);
        n->model = m; addC(*n, no); n->conc[c] = !d;
        g_work.push_back(n);
        addC(s, yes);
    }
    s.conc[c] = d;
    return d;
}
// Makes e concrete by forking over all feasible values.
static u64 concretize(State& s, Expr* e) {
    if (e->isConst()) return e->c();
    auto it = s.conc.find(e); if (it != s.conc.end()) return it->second;
    std::vector<std::pair<u64, ModelP>> vals;
    u64 v0 = (u64)evalExpr(e, s.model->m, s.model->gen);
    vals.push_back({v0, s.model});
    Expr* block = mkNot(mkEq(e, mkC(e->w, v0)));
    while (true) {
        ModelP m; Res r = query(s, block, m);
        if (r == UNSAT) break;
        u64 v = (u64)evalExpr(e, m->m, m->gen);
        vals.push_back({v, m});
        if (vals.size() > g_enumLimit) { if (getenv("VSYM_DEBUG")) fprintf(stderr, "enum: %s\n", exprStr(e, 7).c_str()); unsupported("too many feasible values to enumerate: " + exprStr(e, 3).substr(0, 200)); }
        block = mkAnd(block, mkNot(mkEq(e, mkC(e->w, v))));
    }
    if (vals.size() == 1) { s.conc[e] = v0; return v0; }
    S.concForks++;
    std::sort(vals.begin(), vals.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (size_t i = 1; i < vals.size(); i++) {
        State* n = forkState(s);
        n->model = vals[i].second; addC(*n, mkEq(e, mkC(e->w, vals[i].first))); n->conc[e] = vals[i].first;
        g_work.push_back(n);
    }
    s.model = vals[0].second; addC(s, mkEq(e, mkC(e->w, vals[0].first))); s.conc[e] = vals[0].first;
    return vals[0].first;
}
static u64 conc(State& s, V v) { return v.e ? concretize(s, v.e) : v.c; }

// ------------------------------------------------------------------ symbolic memory access
static void strideOf(Expr* e, u64& base, u64& st, int depth = 0) { // value == base (mod st); st==0: constant
    if (e->isConst()) { base = e->c(); st = 0; return; }
    if (depth < 12) switch (e->op) {
    case ADD: { u64 b1, s1, b2, s2; strideOf(e->a[0], b1, s1, depth + 1); strideOf(e->a[1], b2, s2, depth + 1); base = b1 + b2; st = std::gcd(s1, s2); return; }
    case SUB: { u64 b1, s1, b2, s2; strideOf(e->a[0], b1, s1, depth + 1); strideOf(e->a[1], b2, s2, depth + 1); base = b1 - b2; st = std::gcd(s1, s2); return; }
    case MUL: if (e->a[1]->isConst()) { u64 b1, s1; strideOf(e->a[0], b1, s1, depth + 1); base = b1 * e->a[1]->c(); st = (s1 ? s1 : 0) * e->a[1]->c(); return; } break;
    case SHL: if (e->a[1]->isConst()) { u64 b1, s1; strideOf(e->a[0], b1, s1, depth + 1); base = b1 << e->a[1]->c(); st = s1 << e->a[1]->c(); return; } break;
    case ITE: { u64 b1, s1, b2, s2; strideOf(e->a[1], b1, s1, depth + 1); strideOf(e->a[2], b2, s2, depth + 1); base = b1; st = std::gcd(std::gcd(s1, s2), b1 > b2 ? b1 - b2 : b2 - b1); return; }
    default: break;
    }
    base = 0; st = 1;
}
static V loadSym(State& s, Expr* A, unsigned n) {
    S.symLoads++;
    auto it = s.conc.find(A);
    if (it != s.conc.end()) return readC(s, it->second, n);
    u64 a0 = (u64)evalExpr(A, s.model->m, s.model->gen);
    u32 id; i64 off;
    if (!g_loadFork && splitAddr(a0, id, off)) {
        Obj* o = getObj(s, id);
        if (o && !o->freed && o->kind != 3 && off >= 0 && off + (i64)n <= (i64)o->size) {
            u64 base = addrOf(id);
            Expr* rel = mkBin(SUB, A, mkC(64, base));
            Expr* oob = mkNot(mkBin(ULE, rel, mkC(64, o->size - n)));
            ModelP m; Res r = oob->isConst() ? (oob->cv ? SAT : UNSAT) : query(s, oob, m);
            if (r == UNSAT) {
                u64 b, st; strideOf(rel, b, st); if (st == 0) st = 1;
                u64 lo = rel->umin, hi = std::min<u64>(rel->umax, o->size - n);
                u64 first = lo; u64 rem = b % st; // first >= lo with first == b mod st (b may be wrapped; only exact for power of two or small b)
                if (b < (1ull << 40) || (st & (st - 1)) == 0) { first = lo + ((rem + st - lo % st) % st); } else { st = 1; }
                std::vector<std::pair<u64, V>> cand;
                for (u64 k = first; k <= hi && cand.size() <= 600; k += st) cand.push_back({k, cv(0)});
                if (cand.size() <= 512 && !cand.empty()) {
                    bool allSame = true; V v0{};
                    for (size_t i = 0; i < cand.size(); i++) { V v = readBytes(o, cand[i].first, n); cand[i].second = v; if (i == 0) v0 = v; else if (v.e != v0.e || v.c != v0.c) allSame = false; }
                    if (allSame) return v0;
                    // balanced selection tree over the offsets
                    std::function<Expr*(size_t, size_t)> tree = [&](size_t l, size_t h) -> Expr* {
                        if (h - l == 1) return toE(cand[l].second, n * 8);
                        size_t mid = (l + h) / 2;
                        if (h - l == 2) return mkIte(mkEq(rel, mkC(64, cand[l].first)), toE(cand[l].second, n * 8), toE(cand[l + 1].second, n * 8));
                        return mkIte(mkBin(ULT, rel, mkC(64, cand[mid].first)), tree(l, mid), tree(mid, h));
                    };
                    return ev(tree(0, cand.size()));
                }
            }
        }
    }
    return readC(s, concretize(s, A), n);
}

// ------------------------------------------------------------------ program preparation
static int regOf(FnInfo* f, std::unordered_map<const Value*, int>& rm, const Value* v);
static V evalConst(const Constant* c);

static u64 gAddr(const GlobalValue* g) {
    if (auto* a = dyn_cast<GlobalAlias>(g)) {
        APInt off(64, 0); const Value* b = a->getAliasee()->stripAndAccumulateConstantOffsets(*DL, off, true);
        return gAddr(cast<GlobalValue>(b)) + off.getSExtValue();
    }
    auto it = g_gaddr.find(g);
    if (it == g_gaddr.end()) { fprintf(stderr, "no address for %s\n", g->getName().str().c_str()); abort(); }
    return it->second;
}
static V constOf(unsigned w, const APInt& a) {
    if (w <= 64) return cv(a.getZExtValue());
    u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
    return V{mkC(w, v), 0};
}
static V zeroOf(Type* t) {
    unsigned w = tw(t);
    if (w) return w <= 64 ? cv(0) : V{mkC(w, 0), 0};
    std::vector<V> v;
    if (auto* st = dyn_cast<StructType>(t)) for (Type* e : st->elements()) v.push_back(zeroOf(e));
    else if (auto* at = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < at->getNumElements(); i++) v.push_back(zeroOf(at->getElementType()));
    else if (auto* vt = dyn_cast<FixedVectorType>(t)) for (u64 i = 0; i < vt->getNumElements(); i++) v.push_back(zeroOf(vt->getElementType()));
    return mkAgg(std::move(v));
}
static V evalConst(const Constant* c) {
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) return constOf(ci->getBitWidth(), ci->getValue());
    if (auto* cf = dyn_cast<ConstantFP>(c)) return constOf(tw(t), cf->getValueAPF().bitcastToAPInt());
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(t);
    if (auto* g = dyn_cast<GlobalValue>(c)) return cv(gAddr(g));
    if (auto* cs = dyn_cast<ConstantAggregate>(c)) { std::vector<V> v; for (unsigned i = 0; i < cs->getNumOperands(); i++) v.push_back(evalConst(cs->getOperand(i))); return mkAgg(std::move(v)); }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<V> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(evalConst(cd->getElementAsConstant(i))); return mkAgg(std::move(v)); }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (auto* gep = dyn_cast<GEPOperator>(ce)) {
            APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) { errs() << *ce << "\n"; abort(); }
            return cv(evalConst(cast<Constant>(gep->getPointerOperand())).c + off.getSExtValue());
        }
        switch (ce->getOpcode()) {
        case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::IntToPtr: case Instruction::PtrToInt: return evalConst(ce->getOperand(0));
        case Instruction::Trunc: return cv(evalConst(ce->getOperand(0)).c & mask64(tw(t)));
        case Instruction::Add: return cv((evalConst(ce->getOperand(0)).c + evalConst(ce->getOperand(1)).c) & mask64(tw(t)));
        case Instruction::Sub: return cv((evalConst(ce->getOperand(0)).c - evalConst(ce->getOperand(1)).c) & mask64(tw(t)));
        case Instruction::ICmp: { u64 a = evalConst(ce->getOperand(0)).c, b = evalConst(ce->getOperand(1)).c; auto p = (CmpInst::Predicate)ce->getPredicate();
            switch (p) { case CmpInst::ICMP_EQ: return cv(a == b); case CmpInst::ICMP_NE: return cv(a != b); case CmpInst::ICMP_ULT: return cv(a < b); case CmpInst::ICMP_UGT: return cv(a > b); default: break; } break; }
        default: break;
        }
        errs() << "constant expression: " << *ce << "\n"; abort();
    }
    errs() << "constant: " << *c << "\n"; abort();
}
static void initMem(Obj* o, u64 off, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(o->b + off, r.data(), r.size()); return; }
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initMem(o, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) initMem(o, off + i * es, c->getAggregateElement(i)); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeAllocSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) initMem(o, off + i * es, c->getAggregateElement(i)); return; }
    unsigned w = tw(t); writeBytes(o, off, (w + 7) / 8, evalConst(c));
}

typedef std::function<void(State&, Inst&, std::vector<V>&)> Handler;
static std::vector<Handler> g_handlers; static std::unordered_map<std::string, int> g_hByName;
static int g_hRetArg0, g_hNop, g_hEmptyStr, g_hStreamCtor, g_hThrowStd; static u64 g_streamVt;
static int builtinFor(FnInfo* f);

static void prepare(FnInfo* f) {
    f->prepared = true;
    Function& F = *f->F;
    std::unordered_map<const Value*, int> rm; int n = 0;
    for (Argument& a : F.args()) { rm[&a] = n++; }
    for (BasicBlock& B : F) for (Instruction& I : B) if (!I.getType()->isVoidTy()) rm[&I] = n++;
    f->nregs = n;
    std::unordered_map<const Value*, int> cm;
    std::unordered_map<const BasicBlock*, BB*> bm;
    for (BasicBlock& B : F) { auto b = std::make_unique<BB>(); b->B = &B; b->fn = f; b->id = f->bbs.size(); bm[&B] = b.get(); f->bbs.push_back(std::move(b)); }
    auto opnd = [&](const Value* v) -> int {
        auto it = rm.find(v); if (it != rm.end()) return it->second;
        auto jt = cm.find(v); if (jt != cm.end()) return jt->second;
        V x = cv(0);
        if (auto* c = dyn_cast<Constant>(v)) x = evalConst(c);
        f->consts.push_back(x); int r = -(int)f->consts.size(); cm[v] = r; return r;
    };
    for (BasicBlock& B : F) {
        BB* bb = bm[&B];
        for (Instruction& I : B) {
            if (auto* p = dyn_cast<PHINode>(&I)) {
                Phi ph; ph.dst = rm[p];
                for (unsigned i = 0; i < p->getNumIncomingValues(); i++) ph.in.push_back({bm[p->getIncomingBlock(i)], opnd(p->getIncomingValue(i))});
                bb->phis.push_back(ph); continue;
            }
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            Inst in; memset((void*)&in, 0, sizeof in);
            in.opc = I.getOpcode(); in.I = &I; in.ty = I.getType(); in.bb = bb; in.callee = nullptr; in.bi = -1;
            in.dst = I.getType()->isVoidTy() ? -1 : rm[&I];
            in.w = I.getType()->isVoidTy() ? 0 : tw(I.getType());
            in.isAgg = !I.getType()->isVoidTy() && in.w == 0;
            if (auto* cb = dyn_cast<CallBase>(&I)) {
                Value* cal = cb->getCalledOperand()->stripPointerCasts();
                if (auto* ga = dyn_cast<GlobalAlias>(cal)) cal = ga->getAliaseeObject();
                in.nops = cb->arg_size() + 1; in.ops = new int[in.nops];
                for (unsigned i = 0; i < cb->arg_size(); i++) { Value* a = cb->getArgOperand(i); in.ops[i] = a->getType()->isMetadataTy() ? 0 : opnd(a); }
                if (auto* fn = dyn_cast<Function>(cal)) { in.callee = g_fns[fn]; in.ops[in.nops - 1] = 0; }
                else if (isa<InlineAsm>(cal)) { in.ops[in.nops - 1] = 0; in.sub = 99; }
                else in.ops[in.nops - 1] = opnd(cal);
                if (auto* iv = dyn_cast<InvokeInst>(&I)) { in.nsucc = 2; in.succ = new BB*[2]{bm[iv->getNormalDest()], bm[iv->getUnwindDest()]}; }
            } else if (isa<BranchInst>(&I) || isa<SwitchInst>(&I)) {
                in.nsucc = I.getNumSuccessors(); in.succ = new BB*[in.nsucc];
                for (unsigned i = 0; i < in.nsucc; i++) in.succ[i] = bm[I.getSuccessor(i)];
                if (auto* br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { in.nops = 1; in.ops = new int[1]{opnd(br->getCondition())}; } }
                else { auto* sw = cast<SwitchInst>(&I); in.nops = 1; in.ops = new int[1]{opnd(sw->getCondition())}; in.wa = tw(sw->getCondition()->getType()); }
            } else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
                std::vector<Inst::GepIdx> gi; i64 off = 0; bool vec = gep->getType()->isVectorTy();
                if (vec) { errs() << "vector gep\n"; }
                for (auto it = gep_type_begin(gep), e = gep_type_end(gep); it != e; ++it) {
                    Value* idx = it.getOperand();
                    if (StructType* st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
                    u64 sc = DL->getTypeAllocSize(it.getIndexedType());
                    if (auto* ci = dyn_cast<ConstantInt>(idx)) off += (i64)sc * ci->getSExtValue();
                    else gi.push_back({opnd(idx), sc, tw(idx->getType())});
                }
                in.nops = 1; in.ops = new int[1]{opnd(gep->getPointerOperand())}; in.coff = off; in.ngidx = gi.size(); in.gidx = new Inst::GepIdx[gi.size() ? gi.size() : 1];
                for (size_t i = 0; i < gi.size(); i++) in.gidx[i] = gi[i];
            } else {
                in.nops = I.getNumOperands(); in.ops = new int[in.nops ? in.nops : 1];
                for (unsigned i = 0; i < in.nops; i++) in.ops[i] = opnd(I.getOperand(i));
                if (in.nops) in.wa = I.getOperand(0)->getType()->isVoidTy() ? 0 : tw(I.getOperand(0)->getType());
                if (auto* c = dyn_cast<CmpInst>(&I)) in.sub = c->getPredicate();
            }
            bb->ins.push_back(in);
        }
    }
    for (Argument& a : F.args()) { bool bv = a.hasByValAttr(); f->byval.push_back(bv); f->byvalSize.push_back(bv ? DL->getTypeAllocSize(a.getParamByValType()) : 0); }
}

// ------------------------------------------------------------------ interpreter core
static Thread& curT(State& s) { return s.th[s.cur]; }
static Frame& top(State& s) { return *curT(s).st.back(); }
static inline V rawGet(Frame& f, int op) { return op >= 0 ? f.regs[op] : f.fn->consts[-op - 1]; }
static inline V get(State& s, Frame& f, int op) {
    V v = rawGet(f, op);
    if (v.e && !s.conc.empty() && v.e->op != AGGR) { auto it = s.conc.find(v.e); if (it != s.conc.end() && v.e->w <= 64) return cv(it->second); }
    return v;
}
static void jump(State& s, Frame& f, BB* to) {
    BB* from = f.bb;
    if (!to->phis.empty()) {
        static std::vector<V> tmp; tmp.clear();
        for (Phi& p : to->phis) { for (auto& in : p.in) if (in.first == from) { tmp.push_back(get(s, f, in.second)); break; } }
        for (size_t i = 0; i < to->phis.size(); i++) f.regs[to->phis[i].dst] = tmp[i];
    }
    f.bb = to; f.ip = 0;
}
static void finishCall(State& s, Frame& f, Inst& in, V r) {
    if (in.dst >= 0) f.regs[in.dst] = r;
    if (in.nsucc) jump(s, f, in.succ[0]); else f.ip++;
}
static void pushFrame(State& s, Thread& t, FnInfo* fn, std::vector<V>& args) {
    if (!fn->prepared) prepare(fn);
    if (t.st.size() > 2000) violate("stack", "call depth exceeds 2000");
    auto f = std::make_shared<Frame>(); f->fn = fn; f->bb = fn->bbs[0].get(); f->ip = 0; f->regs.assign(fn->nregs, cv(0));
    size_t na = fn->F->arg_size();
    for (size_t i = 0; i < na && i < args.size(); i++) {
        if (fn->byval[i]) {
            u64 src = args[i].c; u32 sz = fn->byvalSize[i]; u32 id = allocObj(s, sz, 2); f->allocas.push_back(id);
            i64 off; u32 sid; Obj* so = checkAccess(s, src, sz, false, off, sid); Obj* d = getObjW(s, id);
            for (u32 k = 0; k < sz; k++) writeBytes(d, k, 1, readBytes(so, off + k, 1));
            f->regs[i] = cv(addrOf(id));
        } else f->regs[i] = args[i];
    }
    t.st.push_back(f); fn->calls++;
}
static void popFrame(State& s) {
    Thread& t = curT(s); for (u32 id : t.st.back()->allocas) freeObj(s, id);
    t.st.pop_back();
    if (!t.st.empty() && t.st.back().use_count() > 1) t.st.back() = std::make_shared<Frame>(*t.st.back());
}
static void evalOpForE(Op op) { (void)op; }
static V binop(Op op, V a, V b, unsigned w) {
    if (!a.e && !b.e && w <= 64) { return cv((u64)foldOp(op, w, 0, a.c, b.c, w)); }
    return ev(mkBin(op, toE(a, w), toE(b, w)));
}
static V fbin(State& s, Op op, V a, V b, unsigned w);

// Floating-point operations the solver should not see symbolically are resolved by enumerating operand values.
static bool costly(Op op, Expr* a, Expr* b) {
    if (op == FDIV) { FX x, y; Expr* e = mkFBin(FDIV, a, b); return !e->isConst() && !e->fx && e->op == FDIV; }
    return false;
}
static V fbin(State& s, Op op, V a, V b, unsigned w) {
    if (!a.e && !b.e && w <= 64) return cv((u64)foldOp(op, w, 0, a.c, b.c, w));
    Expr *x = toE(a, w), *y = toE(b, w);
    Expr* r = mkFBin(op, x, y);
    if (g_fpFork && !r->isConst() && !r->fx && r->op == op && w <= 64) {
        // no exact shadow: enumerate the operands' values (small domains only)
        if (!x->isConst()) x = mkC(w, concretize(s, x));
        if (!y->isConst()) { r = mkFBin(op, x, y); if (!r->isConst() && !r->fx && r->op == op) y = mkC(w, concretize(s, y)); }
        r = mkFBin(op, x, y);
    }
    return ev(r);
}
static V fcmp(unsigned pred, V a, V b, unsigned w) {
    Expr *x = toE(a, w), *y = toE(b, w);
    auto C = [&](Op o, Expr* p, Expr* q) { return mkFCmp(o, p, q); };
    switch (pred) {
    case CmpInst::FCMP_FALSE: return cv(0); case CmpInst::FCMP_TRUE: return cv(1);
    case CmpInst::FCMP_OEQ: return ev(C(FOEQ, x, y)); case CmpInst::FCMP_OGT: return ev(C(FOLT, y, x)); case CmpInst::FCMP_OGE: return ev(C(FOLE, y, x));
    case CmpInst::FCMP_OLT: return ev(C(FOLT, x, y)); case CmpInst::FCMP_OLE: return ev(C(FOLE, x, y));
    case CmpInst::FCMP_ONE: return ev(mkAnd(mkNot(C(FUNO, x, y)), mkNot(C(FOEQ, x, y))));
    case CmpInst::FCMP_ORD: return ev(mkNot(C(FUNO, x, y))); case CmpInst::FCMP_UNO: return ev(C(FUNO, x, y));
    case CmpInst::FCMP_UEQ: return ev(mkOr(C(FUNO, x, y), C(FOEQ, x, y)));
    case CmpInst::FCMP_UGT: return ev(mkNot(C(FOLE, x, y))); case CmpInst::FCMP_UGE: return ev(mkNot(C(FOLT, x, y)));
    case CmpInst::FCMP_ULT: return ev(mkNot(C(FOLE, y, x))); case CmpInst::FCMP_ULE: return ev(mkNot(C(FOLT, y, x)));
    case CmpInst::FCMP_UNE: return ev(mkNot(C(FOEQ, x, y)));
    }
    unsupported("fcmp");
}
static V icmp(unsigned pred, V a, V b, unsigned w) {
    if (!a.e && !b.e) {
        u64 x = a.c, y = b.c; i64 sx = sext64(x, w), sy = sext64(y, w);
        switch (pred) {
        case CmpInst::ICMP_EQ: return cv(x == y); case CmpInst::ICMP_NE: return cv(x != y);
        case CmpInst::ICMP_UGT: return cv(x > y); case CmpInst::ICMP_UGE: return cv(x >= y); case CmpInst::ICMP_ULT: return cv(x < y); case CmpInst::ICMP_ULE: return cv(x <= y);
        case CmpInst::ICMP_SGT: return cv(sx > sy); case CmpInst::ICMP_SGE: return cv(sx >= sy); case CmpInst::ICMP_SLT: return cv(sx < sy); case CmpInst::ICMP_SLE: return cv(sx <= sy);
        }
    }
    Expr *x = toE(a, w), *y = toE(b, w);
    switch (pred) {
    case CmpInst::ICMP_EQ: return ev(mkEq(x, y)); case CmpInst::ICMP_NE: return ev(mkNot(mkEq(x, y)));
    case CmpInst::ICMP_UGT: return ev(mkBin(ULT, y, x)); case CmpInst::ICMP_UGE: return ev(mkBin(ULE, y, x)); case CmpInst::ICMP_ULT: return ev(mkBin(ULT, x, y)); case CmpInst::ICMP_ULE: return ev(mkBin(ULE, x, y));
    case CmpInst::ICMP_SGT: return ev(mkBin(SLT, y, x)); case CmpInst::ICMP_SGE: return ev(mkBin(SLE, y, x)); case CmpInst::ICMP_SLT: return ev(mkBin(SLT, x, y)); case CmpInst::ICMP_SLE: return ev(mkBin(SLE, x, y));
    }
    unsupported("icmp");
}
static V selectV(V c, V a, V b, Type* t);
static V selectE(Expr* c, V a, V b, Type* t) {
    unsigned w = tw(t);
    if (w) return ev(mkIte(c, toE(a, w), toE(b, w)));
    std::vector<V> r; auto &x = aggOf(a), &y = aggOf(b);
    for (size_t i = 0; i < x.size(); i++) { Type* et = t->isStructTy() ? cast<StructType>(t)->getElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType(); r.push_back(selectE(c, x[i], y[i], et)); }
    return mkAgg(std::move(r));
}
static V loadTy(State& s, V addr, Type* t);
static V loadTy(State& s, V addr, Type* t) {
    unsigned w = tw(t);
    if (w) {
        unsigned n = (w + 7) / 8;
        V v = addr.e ? loadSym(s, addr.e, n) : readC(s, addr.c, n);
        if (w == n * 8) return v;
        if (v.e) return ev(mkExtract(v.e, 0, w));
        return cv(v.c & mask64(w));
    }
    u64 a = conc(s, addr);
    std::vector<V> r;
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) r.push_back(loadTy(s, cv(a + sl->getElementOffset(i)), st->getElementType(i))); }
    else { Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType(); u64 n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); u64 es = t->isArrayTy() ? DL->getTypeAllocSize(et).getFixedValue() : (tw(et) + 7) / 8;
        for (u64 i = 0; i < n; i++) r.push_back(loadTy(s, cv(a + i * es), et)); }
    return mkAgg(std::move(r));
}
static void storeTy(State& s, u64 a, V v, Type* t) {
    unsigned w = tw(t);
    if (w) { unsigned n = (w + 7) / 8; if (v.e && w != n * 8) v = ev(mkZExt(v.e, n * 8)); writeC(s, a, n, v); return; }
    auto& x = aggOf(v);
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(s, a + sl->getElementOffset(i), x[i], st->getElementType(i)); }
    else { Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType(); u64 es = t->isArrayTy() ? DL->getTypeAllocSize(et).getFixedValue() : (tw(et) + 7) / 8; for (size_t i = 0; i < x.size(); i++) storeTy(s, a + i * es, x[i], et); }
}

// ------------------------------------------------------------------ exceptions and RTTI
static std::string gNameAt(State& s, u64 a) { u32 id; i64 off; if (!splitAddr(a, id, off)) return ""; Obj* o = getObj(s, id); return o && o->name ? o->name : ""; }
static std::string tiKind(State& s, u64 ti) { return gNameAt(s, readC64(s, ti)); }
static std::string tiName(State& s, u64 ti) { if (!ti) return "?"; std::string n = readStr(s, readC64(s, ti + 8)); return n; }
static bool sameTI(State& s, u64 a, u64 b) { return a == b || tiName(s, a) == tiName(s, b); }
struct Sub { u64 ti; i64 off; };
static void bases(State& s, u64 ti, u64 objAddr, i64 off, std::vector<Sub>& out) {
    out.push_back({ti, off});
    std::string k = tiKind(s, ti);
    if (k.find("20__si_class_type_info") != std::string::npos) bases(s, readC64(s, ti + 16), objAddr, off, out);
    else if (k.find("21__vmi_class_type_info") != std::string::npos) {
        u32 n = readC(s, ti + 20, 4).c;
        for (u32 i = 0; i < n; i++) {
            u64 b = readC64(s, ti + 24 + 16 * i); i64 fl = readC64(s, ti + 32 + 16 * i); i64 bo = fl >> 8;
            if (fl & 1) { u64 vptr = readC64(s, objAddr + off); bo = readC64(s, vptr + bo); }
            bases(s, b, objAddr, off + bo, out);
        }
    }
}
static bool catchable(State& s, u64 ti, u64 cti, u64 obj, u64& adj) {
    std::string k = tiKind(s, ti);
    if (k.find("19__pointer_type_info") != std::string::npos) {
        u64 pv = readC64(s, obj); adj = pv;
        if (sameTI(s, ti, cti)) return true;
        if (tiKind(s, cti).find("19__pointer_type_info") == std::string::npos) return false;
        u64 p1 = readC64(s, ti + 24), p2 = readC64(s, cti + 24);
        return sameTI(s, p1, p2) || tiName(s, p2) == "v";
    }
    adj = obj;
    if (sameTI(s, ti, cti)) return true;
    if (k.find("class_type_info") == std::string::npos) return false;
    std::vector<Sub> b; bases(s, ti, obj, 0, b);
    for (auto& x : b) if (sameTI(s, x.ti, cti)) { adj = obj + x.off; return true; }
    return false;
}
static std::map<std::string, int> g_tids;
static int tidOf(State& s, u64 ti) { if (!ti) return 1000000; auto n = tiName(s, ti); auto it = g_tids.find(n); if (it != g_tids.end()) return it->second; int r = g_tids.size() + 1; g_tids[n] = r; return r; }
// selector for a landing pad: >0 handler, 0 none, -1 filter
static int matchPad(State& s, const LandingPadInst* lp, u64 ti, u64 obj, u64& adj) {
    for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        Constant* c = lp->getClause(i);
        if (lp->isCatch(i)) {
            u64 ct = evalConst(c).c;
            if (!ct) { adj = obj; if (ti && tiKind(s, ti).find("19__pointer") != std::string::npos) adj = readC64(s, obj); return tidOf(s, 0); }
            if (ti && catchable(s, ti, ct, obj, adj)) return tidOf(s, ct);
        } else return -1;
    }
    return 0;
}
static const LandingPadInst* padOf(BB* b) { return cast<LandingPadInst>(b->ins[0].I); }
static void unwind(State& s, u64 obj, bool first) {
    // current top frame is at the throwing call; find a handler first
    Thread& t = curT(s);
    u64 ti = 0; for (auto& e : s.excs) if (e.obj == obj) ti = e.tinfo;
    bool found = false;
    for (int i = (int)t.st.size() - 1 - (first ? 0 : 1); i >= 0 && !found; i--) {
        Frame& f = *t.st[i]; Inst& in = f.bb->ins[f.ip];
        if (in.opc == Instruction::Invoke) { u64 a; if (matchPad(s, padOf(in.succ[1]), ti, obj, a) != 0) found = true; }
    }
    if (!found) {
        std::string what = tiName(s, ti);
        violate("exception", "uncaught exception of type " + demangle("_ZTS" + what));
    }
    if (!first) popFrame(s);
    while (true) {
        Frame& f = top(s); Inst& in = f.bb->ins[f.ip];
        if (in.opc == Instruction::Invoke) {
            const LandingPadInst* lp = padOf(in.succ[1]); u64 adj = obj; int sel = matchPad(s, lp, ti, obj, adj);
            if (sel != 0 || lp->isCleanup()) {
                jump(s, f, in.succ[1]);
                Inst& lpi = f.bb->ins[0];
                f.regs[lpi.dst] = mkAgg({cv(obj), cv((u32)sel)});
                for (auto& e : s.excs) if (e.obj == obj) e.adjusted = adj;
                f.ip++;
                return;
            }
        }
        popFrame(s);
    }
}
static u64 dynCast(State& s, u64 src, u64 dstTI) {
    if (!src) return 0;
    u64 vptr = readC64(s, src); i64 ott = (i64)readC64(s, vptr - 16); u64 ti = readC64(s, vptr - 8); u64 full = src + ott;
    std::vector<Sub> b; bases(s, ti, full, 0, b);
    for (auto& x : b) if (sameTI(s, x.ti, dstTI)) return full + x.off;
    return 0;
}

// ------------------------------------------------------------------ threads
static bool runnable(State& s, Thread& t) {
    switch (t.status) {
    case 0: return true;
    case 1: return s.mutexes[t.waitOn] == 0;
    case 3: return s.th[t.waitOn].status == 4;
    default: return false;
    }
}
static Expr* newInput(State& s, const std::string& name, unsigned w, bool ranged, i64 lo, i64 hi);
// lets the symbolic scheduler pick the next thread; called between instructions
static void resolveSched(State& s) {
    int pick;
    if (s.pend) {
        u64 k = concretize(s, s.pend); // forked states resolve their own choice when they resume
        pick = s.pendR[k]; s.pend = nullptr;
        if (s.pendCur && pick != s.cur) s.preempt++;
    } else pick = s.pendR[0];
    s.cur = pick;
    Thread& t = s.th[pick];
    if (t.status == 1) { s.mutexes[t.waitOn] = pick + 1; t.status = 0; }
    if (t.status == 3) t.status = 0;
    if (!t.st.empty() && t.st.back().use_count() > 1) t.st.back() = std::make_shared<Frame>(*t.st.back());
}
static void schedule(State& s, bool mustSwitch) {
    std::vector<int> r;
    for (size_t i = 0; i < s.th.size(); i++) if (runnable(s, s.th[i])) r.push_back(i);
    if (r.empty()) {
        bool alldone = true; for (auto& t : s.th) if (t.status != 4) alldone = false;
        if (alldone) return;
        violate("deadlock", "no thread can run");
    }
    bool curOk = !mustSwitch && std::find(r.begin(), r.end(), s.cur) != r.end();
    s.pendCur = curOk; s.pend = nullptr; s.pendR = r;
    if (r.size() > 1) {
        auto fair = g_params.find("fair"); // this many free choices, then the threads take turns
        if (fair != g_params.end() && s.nameCount["sched"] >= fair->second) { int nx = r[0]; for (int t : r) if (t > s.cur) { nx = t; break; } s.pendR = {nx}; }
        else if (curOk && (int)s.preempt >= g_maxPreempt) s.pendR = {s.cur};
        else s.pend = newInput(s, "sched", 64, true, 0, r.size() - 1);
    }
    resolveSched(s);
}

// ------------------------------------------------------------------ inputs
static Expr* newInput(State& s, const std::string& name, unsigned w, bool ranged, i64 lo, i64 hi) {
    int k = s.nameCount[name]++;
    std::string nm = name + "#" + std::to_string(k);
    Expr* e;
    if (ranged) {
        u64 span = (u64)hi - (u64)lo; unsigned bw = 1; while (bw < 64 && (span >> bw)) bw++;
        Expr* v = mkVar(nm, bw, span != mask64(bw), 0, span);
        e = mkBin(ADD, mkZExt(v, 64), mkC(64, (u64)lo));
    } else e = mkVar(nm, w, false, 0, 0);
    s.inputs.push_back({name, e});
    return e;
}

// ------------------------------------------------------------------ reporting
static std::string locOf(State& s) {
    for (int i = (int)curT(s).st.size() - 1; i >= 0; i--) {
        Frame& f = *curT(s).st[i];
        if (f.ip >= f.bb->ins.size()) continue;
        const DebugLoc& d = f.bb->ins[f.ip].I->getDebugLoc();
        if (!d) continue;
        for (DILocation* l = d.get(); l; l = l->getInlinedAt()) {
            std::string fn = l->getFilename().str();
            if (fn.find("/usr/") == std::string::npos && fn.find("include/c++") == std::string::npos && fn.find("bits/") == std::string::npos) return fn + ":" + std::to_string(l->getLine());
        }
    }
    return "?";
}
static void collect(State& s, const ModelP& m, std::vector<std::pair<std::string, u64>>& in, std::vector<std::pair<std::string, u64>>& no) {
    for (auto& p : s.inputs) in.push_back({p.first, (u64)evalExpr(p.second, m->m, m->gen)});
    for (auto& n : s.notes) no.push_back({n.name, (u64)evalExpr(n.e, m->m, m->gen)});
}
static void report(State& s, const ModelP& m, const std::string& kind, const std::string& id, const std::string& msg) {
    S.violTotal++;
    std::string loc = locOf(s);
    std::string key = kind + "|" + id + "|" + (kind == "assert" ? "" : loc);
    if (!S.violKeys.insert(key).second) return;
    Violation v; v.kind = kind; v.id = id; v.msg = msg; v.loc = loc; collect(s, m, v.inputs, v.notes);
    S.viol.push_back(v);
    if ((int)S.viol.size() >= g_maxViol) g_stop = true;
}
#include "builtins.inc"

// ------------------------------------------------------------------ instruction step
static void doCall(State& s, Frame& f, Inst& in) {
    FnInfo* fn = in.callee;
    if (in.sub == 99) { if (cast<CallBase>(in.I)->getType()->isVoidTy()) { f.ip++; return; } unsupported("inline assembly"); }
    if (!fn) {
        V a = get(s, f, in.ops[in.nops - 1]); u64 addr = conc(s, a);
        u32 id; i64 off; if (!splitAddr(addr, id, off)) violate("mem.null", "call through a null pointer");
        if (id >= g_fnByObj.size() || !g_fnByObj[id] || off != 0) violate("mem.call", "call through a bad pointer");
        fn = g_fnByObj[id];
    }
    std::vector<V> args; args.reserve(in.nops - 1);
    for (unsigned i = 0; i + 1 < in.nops; i++) args.push_back(get(s, f, in.ops[i]));
    if (fn->bi == -1) fn->bi = builtinFor(fn);
    if (fn->bi >= 0) { g_handlers[fn->bi](s, in, args); return; }
    if (fn->F->isDeclaration()) unsupported("external function " + fn->dem);
    pushFrame(s, curT(s), fn, args);
}

static void castOp(State& s, Frame& f, Inst& in) {
    V a = get(s, f, in.ops[0]); V r;
    unsigned wa = in.wa, w = in.w;
    if (in.isAgg || wa == 0) {
        if (in.opc == Instruction::BitCast) { // vector <-> scalar
            Type* st = in.I->getOperand(0)->getType();
            Expr* flat = nullptr;
            if (wa) flat = toE(a, wa); else { unsigned ew = tw(cast<VectorType>(st)->getElementType()); for (V x : aggOf(a)) { Expr* e = toE(x, ew); flat = flat ? mkConcat(e, flat) : e; } }
            if (w) r = ev(flat);
            else { unsigned ew = tw(cast<VectorType>(in.ty)->getElementType()); std::vector<V> v; for (unsigned i = 0; i < cast<FixedVectorType>(in.ty)->getNumElements(); i++) v.push_back(ev(mkExtract(flat, i * ew, ew))); r = mkAgg(std::move(v)); }
            f.regs[in.dst] = r; f.ip++; return;
        }
        // elementwise
        unsigned ea = tw(cast<VectorType>(in.I->getOperand(0)->getType())->getElementType()), er = tw(cast<VectorType>(in.ty)->getElementType()); std::vector<V> v;
        for (V x : aggOf(a)) { Expr* e = toE(x, ea); switch (in.opc) { case Instruction::ZExt: v.push_back(ev(mkZExt(e, er))); break; case Instruction::SExt: v.push_back(ev(mkSExt(e, er))); break; case Instruction::Trunc: v.push_back(ev(mkExtract(e, 0, er))); break;
            case Instruction::SIToFP: v.push_back(ev(mkIToF(SITOF, e, er))); break; case Instruction::UIToFP: v.push_back(ev(mkIToF(UITOF, e, er))); break; case Instruction::FPExt: v.push_back(ev(mkFConv(FEXT, e, er))); break; case Instruction::FPTrunc: v.push_back(ev(mkFConv(FTRUNC, e, er))); break;
            default: unsupported("vector cast"); } }
        f.regs[in.dst] = mkAgg(std::move(v)); f.ip++; return;
    }
    switch (in.opc) {
    case Instruction::ZExt: r = !a.e ? (w <= 64 ? a : V{mkC(w, a.c), 0}) : ev(mkZExt(a.e, w)); break;
    case Instruction::SExt: if (!a.e && w <= 64) r = cv((u64)sext64(a.c, wa) & mask64(w)); else r = ev(mkSExt(toE(a, wa), w)); break;
    case Instruction::Trunc: r = !a.e ? cv(a.c & mask64(w)) : ev(mkExtract(a.e, 0, w)); break;
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        r = a; if (w != wa) r = w < wa ? ev(mkExtract(toE(a, wa), 0, w)) : ev(mkZExt(toE(a, wa), w)); break;
    case Instruction::FPToSI: r = ev(mkFToI(FTOSI, toE(a, wa), w)); break;
    case Instruction::FPToUI: r = ev(mkFToI(FTOUI, toE(a, wa), w)); break;
    case Instruction::SIToFP: r = ev(mkIToF(SITOF, toE(a, wa), w)); break;
    case Instruction::UIToFP: r = ev(mkIToF(UITOF, toE(a, wa), w)); break;
    case Instruction::FPTrunc: r = ev(mkFConv(FTRUNC, toE(a, wa), w)); break;
    case Instruction::FPExt: r = ev(mkFConv(FEXT, toE(a, wa), w)); break;
    default: unsupported("cast");
    }
    if (r.e && r.e->w > 64 && (in.opc == Instruction::SIToFP || in.opc == Instruction::UIToFP || in.opc == Instruction::FPExt) && !r.e->isConst()) { concretize(s, toE(a, wa)); throw Retry(); }
    if (!g_fpFork && in.opc == Instruction::FPToUI && r.e && r.e->op == FTOUI && w == 32) r = ev(mkExtract(mkFToI(FTOSI, toE(a, wa), 64), 0, 32));
    else if ((in.opc == Instruction::FPToSI || in.opc == Instruction::FPToUI) && r.e && (r.e->op == FTOSI || r.e->op == FTOUI)) { concretize(s, toE(a, wa)); throw Retry(); }
    if (in.opc == Instruction::FPTrunc && r.e && !r.e->fx && r.e->op == FTRUNC && g_fpFork) { concretize(s, toE(a, wa)); throw Retry(); }
    f.regs[in.dst] = r; f.ip++;
}
static bool arith(State& s, Frame& f, Inst& in) {
    Op op;
    switch (in.opc) {
    case Instruction::Add: op = ADD; break; case Instruction::Sub: op = SUB; break; case Instruction::Mul: op = MUL; break;
    case Instruction::UDiv: op = UDIV; break; case Instruction::SDiv: op = SDIV; break; case Instruction::URem: op = UREM; break; case Instruction::SRem: op = SREM; break;
    case Instruction::And: op = AND; break; case Instruction::Or: op = OR; break; case Instruction::Xor: op = XOR; break;
    case Instruction::Shl: op = SHL; break; case Instruction::LShr: op = LSHR; break; case Instruction::AShr: op = ASHR; break;
    case Instruction::FAdd: op = FADD; break; case Instruction::FSub: op = FSUB; break; case Instruction::FMul: op = FMUL; break; case Instruction::FDiv: op = FDIV; break; case Instruction::FRem: op = FREM; break;
    default: return false;
    }
    V a = get(s, f, in.ops[0]), b = get(s, f, in.ops[1]); V r;
    if (in.isAgg) {
        unsigned ew = tw(cast<VectorType>(in.ty)->getElementType()); std::vector<V> v; auto &x = aggOf(a), &y = aggOf(b);
        for (size_t i = 0; i < x.size(); i++) v.push_back(op >= FADD ? fbin(s, op, x[i], y[i], ew) : binop(op, x[i], y[i], ew));
        f.regs[in.dst] = mkAgg(std::move(v)); f.ip++; return true;
    }
    if (op >= UDIV && op <= SREM) {
        if (!b.e) { if (b.c == 0) violate("div0", "integer division by zero"); }
        else { Expr* z = mkEq(b.e, mkC(in.w, 0)); if (!z->isConst() || z->cv) { if (decide(s, z)) violate("div0", "integer division by zero"); } }
    }
    r = op >= FADD ? fbin(s, op, a, b, in.w) : binop(op, a, b, in.w);
    f.regs[in.dst] = r; f.ip++;
    return true;
}

static u64 g_visit = 0;
static void step(State& s) {
    if (s.pend) { resolveSched(s); return; }
    Frame& f = top(s);
    Inst& in = f.bb->ins[f.ip];
    if (!in.seen) { in.seen = true; S.instrSeen++; }
    s.steps++; S.steps++;
    if (g_trace) { errs() << f.fn->dem << ": " << *in.I << "\n"; }
    switch (in.opc) {
    case Instruction::Ret: {
        V r = cv(0); if (in.nops) r = get(s, f, in.ops[0]);
        popFrame(s);
        Thread& t = curT(s);
        if (t.st.empty()) {
            t.status = 4;
            if (s.cur == 0) throw PathEnd{0, "", ""};
            schedule(s, true);
            return;
        }
        Frame& p = top(s); Inst& ci = p.bb->ins[p.ip];
        if (ci.opc != Instruction::Call && ci.opc != Instruction::Invoke) return; // entered outside of a call (static initialisation)
        if (p.ip == 0 && p.regs.size() && false) return;
        finishCall(s, p, ci, r);
        return;
    }
    case Instruction::Br:
        if (in.nsucc == 1) { jump(s, f, in.succ[0]); return; }
        { V c = get(s, f, in.ops[0]);
          bool d; if (!c.e) d = c.c & 1; else d = decide(s, c.e);
          jump(s, f, in.succ[d ? 0 : 1]); return; }
    case Instruction::Switch: {
        V c = get(s, f, in.ops[0]); auto* sw = cast<SwitchInst>(in.I);
        u64 v;
        if (c.e) { // decide case by case
            for (auto& cs : sw->cases()) {
                Expr* e = mkEq(c.e, mkC(in.wa, cs.getCaseValue()->getZExtValue()));
                if (decide(s, e)) { jump(s, f, in.succ[cs.getSuccessorIndex()]); return; }
            }
            jump(s, f, in.succ[0]); return;
        }
        v = c.c;
        for (auto& cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == v) { jump(s, f, in.succ[cs.getSuccessorIndex()]); return; }
        jump(s, f, in.succ[0]); return; }
    case Instruction::Unreachable: violate("unreachable", "execution reached code the compiler considers unreachable");
    case Instruction::Call: case Instruction::Invoke: doCall(s, f, in); return;
    case Instruction::Resume: { V a = get(s, f, in.ops[0]); unwind(s, aggOf(a)[0].c, false); return; }
    case Instruction::LandingPad: unsupported("landingpad reached by normal flow");
    case Instruction::Alloca: {
        auto* ai = cast<AllocaInst>(in.I); u64 n = conc(s, get(s, f, in.ops[0])); u64 sz = n * DL->getTypeAllocSize(ai->getAllocatedType());
        u32 id = allocObj(s, sz, 2); f.allocas.push_back(id); f.regs[in.dst] = cv(addrOf(id)); f.ip++; return; }
    case Instruction::Load: { V a = get(s, f, in.ops[0]); V r = loadTy(s, a, in.ty); f.regs[in.dst] = r; f.ip++; return; }
    case Instruction::Store: {
        V v = get(s, f, in.ops[0]); V a = get(s, f, in.ops[1]); u64 ad = conc(s, a);
        storeTy(s, ad, v, in.I->getOperand(0)->getType()); f.ip++; return; }
    case Instruction::GetElementPtr: {
        if (in.isAgg) unsupported("vector gep");
        V b = get(s, f, in.ops[0]);
        if (!b.e) {
            u64 a = b.c + in.coff; bool allc = true;
            for (unsigned i = 0; i < in.ngidx; i++) { V x = get(s, f, in.gidx[i].op); if (x.e) { allc = false; break; } a += (u64)sext64(x.c, in.gidx[i].w) * in.gidx[i].scale; }
            if (allc) { f.regs[in.dst] = cv(a); f.ip++; return; }
        }
        Expr* e = toE(b, 64); u64 coff = in.coff;
        for (unsigned i = 0; i < in.ngidx; i++) { V x = get(s, f, in.gidx[i].op);
            if (!x.e) coff += (u64)sext64(x.c, in.gidx[i].w) * in.gidx[i].scale;
            else e = mkBin(ADD, e, mkBin(MUL, mkSExt(x.e, 64), mkC(64, in.gidx[i].scale))); }
        f.regs[in.dst] = ev(mkBin(ADD, e, mkC(64, coff))); f.ip++; return; }
    case Instruction::ICmp: {
        V a = get(s, f, in.ops[0]), b = get(s, f, in.ops[1]);
        if (in.isAgg) { unsigned ew = tw(cast<VectorType>(in.I->getOperand(0)->getType())->getElementType()); std::vector<V> v; auto &x = aggOf(a), &y = aggOf(b); for (size_t i = 0; i < x.size(); i++) v.push_back(icmp(in.sub, x[i], y[i], ew)); f.regs[in.dst] = mkAgg(std::move(v)); }
        else f.regs[in.dst] = icmp(in.sub, a, b, in.wa);
        f.ip++; return; }
    case Instruction::FCmp: {
        V a = get(s, f, in.ops[0]), b = get(s, f, in.ops[1]);
        if (in.isAgg) { unsigned ew = tw(cast<VectorType>(in.I->getOperand(0)->getType())->getElementType()); std::vector<V> v; auto &x = aggOf(a), &y = aggOf(b); for (size_t i = 0; i < x.size(); i++) v.push_back(fcmp(in.sub, x[i], y[i], ew)); f.regs[in.dst] = mkAgg(std::move(v)); }
        else { if (in.wa > 64 && ((a.e && !a.e->isConst()) || (b.e && !b.e->isConst()))) unsupported("symbolic long double"); f.regs[in.dst] = fcmp(in.sub, a, b, in.wa); }
        f.ip++; return; }
    case Instruction::Select: {
        V c = get(s, f, in.ops[0]), a = get(s, f, in.ops[1]), b = get(s, f, in.ops[2]);
        if (!c.e) f.regs[in.dst] = (c.c & 1) ? a : b;
        else if (isAgg(c)) { auto &x = aggOf(c); std::vector<V> v; Type* et = cast<VectorType>(in.ty)->getElementType(); for (size_t i = 0; i < x.size(); i++) v.push_back(x[i].e ? selectE(x[i].e, aggOf(a)[i], aggOf(b)[i], et) : (x[i].c ? aggOf(a)[i] : aggOf(b)[i])); f.regs[in.dst] = mkAgg(std::move(v)); }
        else f.regs[in.dst] = selectE(c.e, a, b, in.ty);
        f.ip++; return; }
    case Instruction::Freeze: f.regs[in.dst] = get(s, f, in.ops[0]); f.ip++; return;
    case Instruction::FNeg: { V a = get(s, f, in.ops[0]);
        if (in.isAgg) { unsigned ew = tw(cast<VectorType>(in.ty)->getElementType()); std::vector<V> v; for (V x : aggOf(a)) v.push_back(ev(mkFNeg(toE(x, ew)))); f.regs[in.dst] = mkAgg(std::move(v)); }
        else if (in.w == 80) { f.regs[in.dst] = ev(mkBin(XOR, toE(a, 80), mkC(80, (u128)1 << 79))); }
        else f.regs[in.dst] = ev(mkFNeg(toE(a, in.w)));
        f.ip++; return; }
    case Instruction::ExtractValue: { V a = get(s, f, in.ops[0]); for (unsigned i : cast<ExtractValueInst>(in.I)->indices()) a = aggOf(a)[i]; f.regs[in.dst] = a; f.ip++; return; }
    case Instruction::InsertValue: {
        V a = get(s, f, in.ops[0]), b = get(s, f, in.ops[1]); auto idx = cast<InsertValueInst>(in.I)->getIndices();
        std::function<V(V, unsigned)> ins = [&](V x, unsigned k) -> V { if (k == idx.size()) return b; std::vector<V> v = aggOf(x); v[idx[k]] = ins(v[idx[k]], k + 1); return mkAgg(std::move(v)); };
        f.regs[in.dst] = ins(a, 0); f.ip++; return; }
    case Instruction::ExtractElement: { V a = get(s, f, in.ops[0]); u64 i = conc(s, get(s, f, in.ops[1])); f.regs[in.dst] = aggOf(a)[i]; f.ip++; return; }
    case Instruction::InsertElement: { V a = get(s, f, in.ops[0]), b = get(s, f, in.ops[1]); u64 i = conc(s, get(s, f, in.ops[2])); std::vector<V> v = aggOf(a); v[i] = b; f.regs[in.dst] = mkAgg(std::move(v)); f.ip++; return; }
    case Instruction::ShuffleVector: { V a = get(s, f, in.ops[0]), b = get(s, f, in.ops[1]); auto &x = aggOf(a), &y = aggOf(b); std::vector<V> v; for (int k : cast<ShuffleVectorInst>(in.I)->getShuffleMask()) v.push_back(k < 0 ? x[0] : k < (int)x.size() ? x[k] : y[k - x.size()]); f.regs[in.dst] = mkAgg(std::move(v)); f.ip++; return; }
    case Instruction::Fence: f.ip++; return;
    case Instruction::AtomicRMW: {
        auto* rm = cast<AtomicRMWInst>(in.I); u64 a = conc(s, get(s, f, in.ops[0])); V v = get(s, f, in.ops[1]); V old = loadTy(s, cv(a), in.ty); V nw;
        switch (rm->getOperation()) { case AtomicRMWInst::Add: nw = binop(ADD, old, v, in.w); break; case AtomicRMWInst::Sub: nw = binop(SUB, old, v, in.w); break; case AtomicRMWInst::Xchg: nw = v; break; case AtomicRMWInst::Or: nw = binop(OR, old, v, in.w); break; case AtomicRMWInst::And: nw = binop(AND, old, v, in.w); break; default: unsupported("atomicrmw"); }
        storeTy(s, a, nw, in.ty); f.regs[in.dst] = old; f.ip++; return; }
    case Instruction::AtomicCmpXchg: {
        u64 a = conc(s, get(s, f, in.ops[0])); V c = get(s, f, in.ops[1]), n = get(s, f, in.ops[2]); Type* t = in.I->getOperand(1)->getType(); V old = loadTy(s, cv(a), t);
        V eq = icmp(CmpInst::ICMP_EQ, old, c, tw(t)); bool d = eq.e ? decide(s, eq.e) : eq.c;
        if (d) storeTy(s, a, n, t);
        f.regs[in.dst] = mkAgg({old, cv(d)}); f.ip++; return; }
    default: break;
    }
    if (in.I->isCast()) { castOp(s, f, in); return; }
    if (arith(s, f, in)) return;
    { std::string str; raw_string_ostream os(str); os << *in.I; unsupported("instruction " + str); }
}

// ------------------------------------------------------------------ path driver
static u64 rssMB() { FILE* fp = fopen("/proc/self/statm", "r"); if (!fp) return 0; long a, b; if (fscanf(fp, "%ld %ld", &a, &b) != 2) b = 0; fclose(fp); return (u64)b * 4096 / 1048576; }
static void endPath(State& s, const PathEnd& p) {
    if (s.steps > S.maxPathSteps) S.maxPathSteps = s.steps;
    if (p.kind == 1) { S.assumeEnds++; return; }
    if (p.kind == 3) { S.incomplete[p.id + ": " + p.msg + " @ " + locOf(s)]++; return; }
    S.paths++;
    for (auto& c : s.covers) S.covers[c]++;
    if (p.kind == 2) { report(s, s.model, "crash", p.id, p.msg); return; }
    if ((int)S.samples.size() < g_samples || (S.paths & (S.paths - 1)) == 0) {
        Sample sm; collect(s, s.model, sm.inputs, sm.notes); sm.end = "ok";
        if (S.samples.size() < 40) S.samples.push_back(sm); 
    }
}
static u64 g_ticks = 0;
static void runState(State* st) {
    State& s = *st; u64 same = 0;
    while (true) {
        try {
            while (true) {
                step(s); same = 0;
                if (s.steps > g_maxSteps) throw PathEnd{2, "hang", "path exceeds " + std::to_string(g_maxSteps) + " instructions"};
                if ((++g_ticks & 0xfff) == 0) {
                    if (now() - g_t0 > g_maxTime) { S.incomplete["time budget exhausted"]++; g_stop = true; }
                    if ((g_ticks & 0x3ffff) == 0 && rssMB() > g_maxMemMB) { S.incomplete["memory budget exhausted"]++; g_stop = true; }
                    if (g_stop) { delete st; return; }
                }
            }
        } catch (Retry&) {
            // a retry that never lets the instruction complete must not outlive the budget
            if (++same > 100000 || ((same & 0xff) == 0xff && now() - g_t0 > g_maxTime)) { S.incomplete[same > 100000 ? "instruction retried without progress" : "time budget exhausted"]++; g_stop = true; delete st; return; }
            continue;
        }
        catch (PathEnd& p) { endPath(s, p); break; }
    }
    delete st;
}

static std::string jstr(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
static void jvals(FILE* f, std::vector<std::pair<std::string, u64>>& v) { fprintf(f, "["); for (size_t i = 0; i < v.size(); i++) fprintf(f, "%s[%s,%lld]", i ? "," : "", jstr(v[i].first).c_str(), (long long)v[i].second); fprintf(f, "]"); }
static void writeOut(const std::string& path) {
    FILE* f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); _exit(3); }
    fprintf(f, "{\"paths\":%llu,\"assume_ends\":%llu,\"forks\":%llu,\"branches\":%llu,\"steps\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"discharged\":%llu,\"sym_loads\":%llu,\"conc_forks\":%llu,\"instr_seen\":%llu,\"max_path_steps\":%llu,\"viol_total\":%llu,\n",
        (unsigned long long)S.paths, (unsigned long long)S.assumeEnds, (unsigned long long)S.forks, (unsigned long long)S.branches, (unsigned long long)S.steps, (unsigned long long)S.asserts, (unsigned long long)S.assertQueries, (unsigned long long)S.discharged, (unsigned long long)S.symLoads, (unsigned long long)S.concForks, (unsigned long long)S.instrSeen, (unsigned long long)S.maxPathSteps, (unsigned long long)S.violTotal);
    fprintf(f, "\"solver\":{\"queries\":%llu,\"z3_calls\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"fp_queries\":%llu,\"z3_time\":%.3f,\"max_time\":%.3f},\n",
        (unsigned long long)g_ss.queries, (unsigned long long)g_ss.z3calls, (unsigned long long)g_ss.cacheHits, (unsigned long long)g_ss.modelHits, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.fpQueries, g_ss.z3time, g_ss.maxTime);
    fprintf(f, "\"wall\":%.3f,\"rss_mb\":%llu,\n\"covers\":{", now() - g_t0, (unsigned long long)rssMB());
    bool first = true; for (auto& p : S.covers) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(f, "},\n\"assert_ids\":{"); first = true; for (auto& p : S.assertIds) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(f, "},\n\"incomplete\":{"); first = true; for (auto& p : S.incomplete) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(f, "},\n\"params\":{"); first = true; for (auto& p : g_paramsUsed) { fprintf(f, "%s%s:%lld", first ? "" : ",", jstr(p.first).c_str(), (long long)p.second); first = false; }
    fprintf(f, "},\n\"violations\":["); first = true;
    for (auto& v : S.viol) { fprintf(f, "%s{\"kind\":%s,\"id\":%s,\"msg\":%s,\"loc\":%s,\"inputs\":", first ? "" : ",\n", jstr(v.kind).c_str(), jstr(v.id).c_str(), jstr(v.msg).c_str(), jstr(v.loc).c_str()); jvals(f, v.inputs); fprintf(f, ",\"notes\":"); jvals(f, v.notes); fprintf(f, "}"); first = false; }
    fprintf(f, "],\n\"samples\":["); first = true;
    for (auto& v : S.samples) { fprintf(f, "%s{\"end\":%s,\"inputs\":", first ? "" : ",\n", jstr(v.end).c_str()); jvals(f, v.inputs); fprintf(f, ",\"notes\":"); jvals(f, v.notes); fprintf(f, "}"); first = false; }
    // functions of the checked sources that were executed
    std::set<std::string> fns;
    for (auto& p : g_fns) for (auto& b : p.second->bbs) for (Inst& in : b->ins) if (in.seen) {
        if (const DebugLoc& d = in.I->getDebugLoc()) for (DILocation* l = d.get(); l; l = l->getInlinedAt()) {
            std::string dir = l->getDirectory().str(), fl = l->getFilename().str(); std::string full = fl[0] == '/' ? fl : dir + "/" + fl;
            size_t k = full.find("/repo/"); if (k == std::string::npos) continue;
            DISubprogram* sp = l->getScope()->getSubprogram(); std::string nm = sp ? sp->getName().str() : "?"; std::string ln = sp ? sp->getLinkageName().str() : "";
            fns.insert(full.substr(k + 6) + ":" + nm);
        }
    }
    fprintf(f, "],\n\"functions\":["); first = true; for (auto& x : fns) { fprintf(f, "%s%s", first ? "" : ",", jstr(x).c_str()); first = false; }
    fprintf(f, "]}\n"); fclose(f);
}

static void setupGlobals(State& s) {
    { u32 id = allocObj(s, 64, 0, "stream vtable"); writeC(s, addrOf(id), 8, cv(8)); g_streamVt = addrOf(id) + 24; } // virtual base offset 8, no virtual functions
    for (Function& F : *M) {
        FnInfo* fi = new FnInfo; fi->F = &F; fi->name = F.getName().str(); fi->dem = demangle(fi->name);
        u32 id = allocObj(s, 8, 3, strdup(fi->name.c_str())); fi->addr = addrOf(id); g_fns[&F] = fi; g_gaddr[&F] = fi->addr;
        if (g_fnByObj.size() <= id) g_fnByObj.resize(id + 1); g_fnByObj[id] = fi;
    }
    for (GlobalVariable& G : M->globals()) {
        u64 sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 64;
        bool stream = !G.hasInitializer() && (G.getName() == "_ZSt4cout" || G.getName() == "_ZSt4cerr" || G.getName() == "_ZSt4clog" || G.getName() == "_ZSt3cin");
        if (!G.hasInitializer() && sz < (stream ? 512 : 64)) sz = stream ? 512 : 64;
        u32 id = allocObj(s, sz, 0, strdup(G.getName().str().c_str())); g_gaddr[&G] = addrOf(id);
        if (stream) writeC(s, addrOf(id), 8, cv(g_streamVt));
    }
    for (GlobalVariable& G : M->globals()) if (G.hasInitializer()) { u32 id; i64 off; splitAddr(g_gaddr[&G], id, off); Obj* o = getObjW(s, id); initMem(o, 0, G.getInitializer()); }
        else if (G.getName() == "__libc_single_threaded") { u32 id; i64 off; splitAddr(g_gaddr[&G], id, off); getObjW(s, id)->b[0] = 1; }
    for (GlobalVariable& G : M->globals()) if (G.isConstant() && G.hasInitializer()) { u32 id; i64 off; splitAddr(g_gaddr[&G], id, off); getObjW(s, id)->ro = true; }
}

static int realMain(int argc, char** argv) {
    std::string mod; int jobs = 1; unsigned qto = 60000;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "-p") { std::string kv = argv[++i]; size_t k = kv.find('='); g_params[kv.substr(0, k)] = atoll(kv.c_str() + k + 1); }
        else if (a == "-j") jobs = atoi(argv[++i]);
        else if (a == "-o") g_out = argv[++i];
        else if (a == "-max-steps") g_maxSteps = atoll(argv[++i]);
        else if (a == "-max-time") g_maxTime = atof(argv[++i]);
        else if (a == "-max-mem") g_maxMemMB = atoll(argv[++i]);
        else if (a == "-query-timeout") qto = atoi(argv[++i]);
        else if (a == "-load-fork") g_loadFork = 1;
        else if (a == "-fp-sym") g_fpFork = 0;
        else if (a == "-enum") g_enumLimit = atoi(argv[++i]);
        else if (a == "-preempt") g_maxPreempt = atoi(argv[++i]);
        else if (a == "-samples") g_samples = atoi(argv[++i]);
        else if (a == "-max-viol") g_maxViol = atoi(argv[++i]);
        else if (a == "-trace") g_trace = true;
        else if (mod.empty()) mod = a;
        else g_entry = a;
    }
    g_t0 = now(); alarm((unsigned)g_maxTime + 60);
    SMDiagnostic err; M = parseIRFile(mod, err, g_ctx);
    if (!M) { err.print("vsym", errs()); return 3; }
    DL = &M->getDataLayout();
    registerBuiltins();
    State* s = new State; s->model = std::make_shared<ModelObj>(); s->model->gen = ++g_evalGen;
    setupGlobals(*s);
    Function* E = M->getFunction(g_entry); if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", g_entry.c_str()); return 3; }
    s->th.push_back(Thread()); std::vector<V> none;
    solverInit(qto);
    // static initialisation, in order
    std::vector<Function*> ctors;
    if (GlobalVariable* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<u64, Function*>> l; for (Value* v : ca->operands()) { auto* cs = cast<ConstantStruct>(v); if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) l.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn}); }
        std::stable_sort(l.begin(), l.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& p : l) ctors.push_back(p.second);
    }
    for (Function* c : ctors) {
        pushFrame(*s, s->th[0], g_fns[c], none);
        try { while (true) { try { step(*s); } catch (Retry&) {} } } catch (PathEnd& p) { if (p.kind != 0) { fprintf(stderr, "static initialisation failed: %s %s @ %s\n", p.id.c_str(), p.msg.c_str(), locOf(*s).c_str()); return 3; } }
        s->th[0].status = 0;
    }
    s->steps = 0;
    pushFrame(*s, s->th[0], g_fns[E], none);
    g_work.push_back(s);
    if (jobs > 1) {
        // breadth first until there is enough work to share
        while (!g_work.empty() && (int)g_work.size() < jobs * 24 && !g_stop) { State* x = g_work.front(); g_work.pop_front();
            // run until this state forks or ends
            size_t before = g_work.size(); bool done = false;
            while (true) { try { while (true) { step(*x); if (x->steps > g_maxSteps) throw PathEnd{2, "hang", "path exceeds " + std::to_string(g_maxSteps) + " instructions"}; if (g_work.size() != before) break; if ((++g_ticks & 0xfff) == 0 && now() - g_t0 > g_maxTime) { S.incomplete["time budget exhausted"]++; g_stop = true; break; } } break; } catch (Retry&) { if (g_work.size() != before) break; continue; } catch (PathEnd& p) { endPath(*x, p); delete x; done = true; break; } }
            if (!done) g_work.push_back(x);
        }
        if (g_work.size() >= 1 && !g_stop) {
            std::vector<State*> front(g_work.begin(), g_work.end()); g_work.clear();
            auto* idx = (std::atomic<u32>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); *idx = 0; auto* stopF = (std::atomic<u32>*)((char*)idx + 64); *stopF = 0;
            std::vector<pid_t> kids;
            fflush(nullptr);
            for (int j = 0; j < jobs; j++) {
                pid_t p = fork();
                if (p == 0) {
                    alarm((unsigned)(g_maxTime - (now() - g_t0)) + 60);
                    S = Stats(); g_ss = SolverStats(); g_samples = (g_samples + jobs - 1) / jobs;
                    u32 k;
                    while (!g_stop && !*stopF && (k = (*idx)++) < front.size()) {
                        g_work.push_back(front[k]); front[k] = nullptr;
                        while (!g_work.empty() && !g_stop) { State* x = g_work.back(); g_work.pop_back(); runState(x); }
                    }
                    if ((int)S.viol.size() >= g_maxViol) *stopF = 1;
                    writeOut(g_out + "." + std::to_string(j));
                    _exit(0);
                }
                kids.push_back(p);
            }
            for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { S.incomplete["worker process died"]++; } }
        }
        writeOut(g_out);
        return 0;
    }
    while (!g_work.empty() && !g_stop) { State* x = g_work.back(); g_work.pop_back(); runState(x); }
    if (g_out.empty()) g_out = "/dev/stdout";
    writeOut(g_out);
    fflush(nullptr);
    _exit(0);
}
int main(int argc, char** argv) {
    // a large stack for recursive expression walks
    struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
    if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30) && !getenv("VSYM_REEXEC")) {
        rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ull << 31) : rl.rlim_max; setrlimit(RLIMIT_STACK, &rl); setenv("VSYM_REEXEC", "1", 1); execv("/proc/self/exe", argv);
    }
    return realMain(argc, argv);
}
