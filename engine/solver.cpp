#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unordered_map>
#include <map>

SolverStats g_ss;
std::string g_lastUnknown;
static Z3_context C;
static Z3_solver Ssmall, Sbv, Sfp; // small: light-weight first attempt with a small resource limit
static unsigned g_timeout;

static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }

static Z3_solver mk(const char* logic) {
    Z3_solver s = logic ? Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, logic)) : Z3_mk_simple_solver(C);
    Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), logic ? g_timeout * 4000u : 300000u);
    Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
    return s;
}
void solverInit(unsigned t) {
    g_timeout = t;
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    C = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(C, errh);
    Ssmall = mk(nullptr); Sbv = mk("QF_BV"); Sfp = mk("QF_BVFP");
}
static Z3_sort bvS(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Z3_sort fpS(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(C) : w == 32 ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_128(C); }
static Z3_ast rne() { return Z3_mk_fpa_rne(C); }
static Z3_ast tr(Expr* e);
static Z3_ast toFp1(Expr* e);
static std::unordered_map<Expr*, Z3_ast> g_fpMemo;
static Z3_ast toFp(Expr* e) {
    auto it = g_fpMemo.find(e);
    if (it != g_fpMemo.end()) return it->second;
    Z3_ast r = toFp1(e); Z3_inc_ref(C, r);
    g_fpMemo[e] = r;
    return r;
}
static Z3_ast toFp1(Expr* e) {
    switch (e->op) { // keep FP terms as FP when possible
    case FADD: return Z3_mk_fpa_add(C, rne(), toFp(e->a[0]), toFp(e->a[1]));
    case FSUB: return Z3_mk_fpa_sub(C, rne(), toFp(e->a[0]), toFp(e->a[1]));
    case FMUL: return Z3_mk_fpa_mul(C, rne(), toFp(e->a[0]), toFp(e->a[1]));
    case FDIV: return Z3_mk_fpa_div(C, rne(), toFp(e->a[0]), toFp(e->a[1]));
    case FSQRT: return Z3_mk_fpa_sqrt(C, rne(), toFp(e->a[0]));
    case FROUND: { Z3_ast m = e->aux == 0 ? Z3_mk_fpa_rtn(C) : e->aux == 1 ? Z3_mk_fpa_rtp(C) : e->aux == 2 ? Z3_mk_fpa_rtz(C) : e->aux == 3 ? rne() : Z3_mk_fpa_rna(C);
        return Z3_mk_fpa_round_to_integral(C, m, toFp(e->a[0])); }
    case SITOF: return Z3_mk_fpa_to_fp_signed(C, rne(), tr(e->a[0]), fpS(e->w));
    case UITOF: return Z3_mk_fpa_to_fp_unsigned(C, rne(), tr(e->a[0]), fpS(e->w));
    case FTRUNC: case FEXT: return Z3_mk_fpa_to_fp_float(C, rne(), toFp(e->a[0]), fpS(e->w));
    case ITE: if (e->fp) return Z3_mk_ite(C, Z3_mk_eq(C, tr(e->a[0]), Z3_mk_unsigned_int64(C, 1, bvS(1))), toFp(e->a[1]), toFp(e->a[2])); break;
    default: break;
    }
    return Z3_mk_fpa_to_fp_bv(C, tr(e), fpS(e->w));
}
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(C, b, Z3_mk_unsigned_int64(C, 1, bvS(1)), Z3_mk_unsigned_int64(C, 0, bvS(1))); }
static Z3_ast trBool(Expr* e);
static Z3_ast tr(Expr* e) {
    if (e->z3) return (Z3_ast)e->z3;
    Z3_ast r = nullptr;
    Expr **a = e->a;
    switch (e->op) {
    case CONST: if (e->w <= 64) r = Z3_mk_unsigned_int64(C, e->c(), bvS(e->w));
        else { Z3_ast hi = Z3_mk_unsigned_int64(C, (u64)(e->cv >> 64), bvS(e->w - 64)), lo = Z3_mk_unsigned_int64(C, (u64)e->cv, bvS(64)); r = Z3_mk_concat(C, hi, lo); }
        break;
    case VAR: r = Z3_mk_const(C, Z3_mk_int_symbol(C, e->aux), bvS(e->w)); break;
    case ADD: r = Z3_mk_bvadd(C, tr(a[0]), tr(a[1])); break;
    case SUB: r = Z3_mk_bvsub(C, tr(a[0]), tr(a[1])); break;
    case MUL: r = Z3_mk_bvmul(C, tr(a[0]), tr(a[1])); break;
    case UDIV: r = Z3_mk_bvudiv(C, tr(a[0]), tr(a[1])); break;
    case SDIV: r = Z3_mk_bvsdiv(C, tr(a[0]), tr(a[1])); break;
    case UREM: r = Z3_mk_bvurem(C, tr(a[0]), tr(a[1])); break;
    case SREM: r = Z3_mk_bvsrem(C, tr(a[0]), tr(a[1])); break;
    case AND: r = e->w == 1 ? b2v(trBool(e)) : Z3_mk_bvand(C, tr(a[0]), tr(a[1])); break;
    case OR: r = e->w == 1 ? b2v(trBool(e)) : Z3_mk_bvor(C, tr(a[0]), tr(a[1])); break;
    case XOR: r = e->w == 1 ? b2v(trBool(e)) : Z3_mk_bvxor(C, tr(a[0]), tr(a[1])); break;
    case SHL: r = Z3_mk_bvshl(C, tr(a[0]), tr(a[1])); break;
    case LSHR: r = Z3_mk_bvlshr(C, tr(a[0]), tr(a[1])); break;
    case ASHR: r = Z3_mk_bvashr(C, tr(a[0]), tr(a[1])); break;
    case ITE: r = Z3_mk_ite(C, trBool(a[0]), tr(a[1]), tr(a[2])); break;
    case ZEXT: r = Z3_mk_zero_ext(C, e->w - a[0]->w, tr(a[0])); break;
    case SEXT: r = Z3_mk_sign_ext(C, e->w - a[0]->w, tr(a[0])); break;
    case EXTRACT: r = Z3_mk_extract(C, e->aux + e->w - 1, e->aux, tr(a[0])); break;
    case CONCAT: r = Z3_mk_concat(C, tr(a[0]), tr(a[1])); break;
    case FTOSI: r = Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), toFp(a[0]), e->w); break;
    case FTOUI: r = Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), toFp(a[0]), e->w); break;
    case FADD: case FSUB: case FMUL: case FDIV: case FSQRT: case FROUND: case SITOF: case UITOF: case FTRUNC: case FEXT:
        r = Z3_mk_fpa_to_ieee_bv(C, toFp(e)); break;
    case EQ: case ULT: case ULE: case SLT: case SLE: case FOEQ: case FOLT: case FOLE: case FUNO: r = b2v(trBool(e)); break;
    case FREM: case UF: default: {
        // unsupported in the solver: a fresh unconstrained value, results that depend on it are checked by evaluation
        fprintf(stderr, "solver: unsupported op %s\n", opName[e->op]);
        r = Z3_mk_fresh_const(C, "unsup", bvS(e->w)); break; }
    }
    Z3_inc_ref(C, r);
    e->z3 = r;
    return r;
}
static std::unordered_map<Expr*, Z3_ast> g_boolMemo;
static Z3_ast trBool(Expr* e) {
    auto it = g_boolMemo.find(e);
    if (it != g_boolMemo.end()) return it->second;
    Z3_ast r;
    Expr** a = e->a;
    switch (e->op) {
    case CONST: r = e->cv ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case AND: { Z3_ast x[2] = {trBool(a[0]), trBool(a[1])}; r = Z3_mk_and(C, 2, x); break; }
    case OR: { Z3_ast x[2] = {trBool(a[0]), trBool(a[1])}; r = Z3_mk_or(C, 2, x); break; }
    case XOR: if (a[1]->isConst()) r = a[1]->cv ? Z3_mk_not(C, trBool(a[0])) : trBool(a[0]); else r = Z3_mk_xor(C, trBool(a[0]), trBool(a[1])); break;
    case EQ: r = Z3_mk_eq(C, tr(a[0]), tr(a[1])); break;
    case ULT: r = Z3_mk_bvult(C, tr(a[0]), tr(a[1])); break;
    case ULE: r = Z3_mk_bvule(C, tr(a[0]), tr(a[1])); break;
    case SLT: r = Z3_mk_bvslt(C, tr(a[0]), tr(a[1])); break;
    case SLE: r = Z3_mk_bvsle(C, tr(a[0]), tr(a[1])); break;
    case FOEQ: r = Z3_mk_fpa_eq(C, toFp(a[0]), toFp(a[1])); break;
    case FOLT: r = Z3_mk_fpa_lt(C, toFp(a[0]), toFp(a[1])); break;
    case FOLE: r = Z3_mk_fpa_leq(C, toFp(a[0]), toFp(a[1])); break;
    case FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(C, toFp(a[0])), Z3_mk_fpa_is_nan(C, toFp(a[1]))}; r = Z3_mk_or(C, 2, x); break; }
    case ITE: r = Z3_mk_ite(C, trBool(a[0]), trBool(a[1]), trBool(a[2])); break;
    default: r = Z3_mk_eq(C, tr(e), Z3_mk_unsigned_int64(C, 1, bvS(1))); break;
    }
    Z3_inc_ref(C, r);
    g_boolMemo[e] = r;
    return r;
}

struct CacheEnt { Res r; std::vector<std::pair<u32, u64>> vals; };
struct VecHash { size_t operator()(const std::vector<u32>& v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
static std::unordered_map<std::vector<u32>, CacheEnt, VecHash> g_cache;
static std::vector<u32> g_mark; static u32 g_markGen = 0;

static std::unordered_map<u32, Expr*> g_varExpr;

static ModelP overlay(const ModelP& hint, const std::vector<std::pair<u32, u64>>& vals) {
    ModelP n = std::make_shared<ModelObj>();
    n->m = hint->m; n->gen = ++g_evalGen;
    for (auto& p : vals) { if (n->m.size() <= p.first) n->m.resize(p.first + 1); n->m[p.first] = p.second; }
    return n;
}

Res solveSat(const std::vector<Expr*>& cons, Expr* extra, const ModelP& hint, ModelP& out) {
    if (extra->isConst()) { out = hint; return extra->cv ? SAT : UNSAT; }
    if (evalExpr(extra, hint->m, hint->gen)) { out = hint; g_ss.modelHits++; return SAT; }
    g_ss.queries++;
    // slice
    g_mark.resize(g_vars.size(), 0); u32 gen = ++g_markGen;
    std::vector<u32> work;
    for (u32 v : extra->vars->v) if (g_mark[v] != gen) { g_mark[v] = gen; work.push_back(v); }
    std::vector<Expr*> sel; std::vector<char> used(cons.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < cons.size(); i++) if (!used[i]) {
            bool hit = false;
            for (u32 v : cons[i]->vars->v) if (g_mark[v] == gen) { hit = true; break; }
            if (hit) { used[i] = 1; sel.push_back(cons[i]); ch = true;
                for (u32 v : cons[i]->vars->v) if (g_mark[v] != gen) { g_mark[v] = gen; work.push_back(v); } }
        }
    }
    sel.push_back(extra);
    std::vector<u32> key; for (Expr* e : sel) key.push_back(e->id);
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = g_cache.find(key);
    if (it != g_cache.end()) {
        g_ss.cacheHits++;
        if (it->second.r == SAT) out = overlay(hint, it->second.vals);
        return it->second.r;
    }
    bool fp = false; for (Expr* e : sel) fp |= e->fp;
    // FX comparisons are pure bit-vector; e->fp says that FP operations remain in the DAG
    if (fp) g_ss.fpQueries++;
    auto t0 = std::chrono::steady_clock::now();
    Z3_solver s = nullptr; Z3_lbool r = Z3_L_UNDEF;
    for (int att = fp ? 1 : 0; att < 2 && r == Z3_L_UNDEF; att++) {
        s = att == 0 ? Ssmall : fp ? Sfp : Sbv;
        Z3_solver_reset(C, s);
        for (Expr* e : sel) Z3_solver_assert(C, s, trBool(e));
        for (u32 v : work) if (g_vars[v].ranged) { // ranges are part of the declaration of a variable
            VarInfo& vi = g_vars[v]; Z3_ast x = Z3_mk_const(C, Z3_mk_int_symbol(C, v), bvS(vi.w));
            Z3_ast lo = Z3_mk_unsigned_int64(C, vi.lo & mask64(vi.w), bvS(vi.w)), hi = Z3_mk_unsigned_int64(C, vi.hi & mask64(vi.w), bvS(vi.w));
            if (vi.sgn) { Z3_solver_assert(C, s, Z3_mk_bvsge(C, x, lo)); Z3_solver_assert(C, s, Z3_mk_bvsle(C, x, hi)); }
            else { Z3_solver_assert(C, s, Z3_mk_bvuge(C, x, lo)); Z3_solver_assert(C, s, Z3_mk_bvule(C, x, hi)); }
        }
        r = Z3_solver_check(C, s);
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_ss.z3calls++; g_ss.z3time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt;
    static bool verbose = getenv("VSYM_SLOW") != nullptr;
    if (verbose && dt > 0.5) { fprintf(stderr, "slow query %.2fs fp=%d res=%d n=%zu extra=%s\n", dt, fp, (int)r, sel.size(), exprStr(extra, 8).substr(0, 600).c_str()); }
    CacheEnt ce;
    if (r == Z3_L_TRUE) {
        g_ss.sat++;
        Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
        std::sort(work.begin(), work.end());
        for (u32 v : work) {
            Z3_ast x = Z3_mk_const(C, Z3_mk_int_symbol(C, v), bvS(g_vars[v].w)); Z3_ast val; u64 u = 0;
            Z3_inc_ref(C, x);
            if (Z3_model_eval(C, m, x, true, &val)) { Z3_inc_ref(C, val); uint64_t q = 0; if (Z3_get_numeral_uint64(C, val, &q)) u = q; Z3_dec_ref(C, val); }
            Z3_dec_ref(C, x);
            ce.vals.push_back({v, u});
        }
        Z3_model_dec_ref(C, m);
        out = overlay(hint, ce.vals);
        // the model must satisfy the query under our own evaluator
        for (Expr* e : sel) if (!evalExpr(e, out->m, out->gen)) {
            g_lastUnknown = "solver model does not satisfy the encoding: " + exprStr(e, 5).substr(0, 300);
            fprintf(stderr, "%s\n", g_lastUnknown.c_str());
            g_ss.unknown++; return UNKNOWN;
        }
        ce.r = SAT;
    } else if (r == Z3_L_FALSE) { g_ss.unsat++; ce.r = UNSAT; }
    else { g_ss.unknown++; g_lastUnknown = std::string("solver gave up: ") + Z3_solver_get_reason_unknown(C, s); return UNKNOWN; }
    if (g_cache.size() > 2000000) g_cache.clear();
    g_cache.emplace(std::move(key), ce);
    return ce.r;
}
