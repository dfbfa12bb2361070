// Models of external functions, intrinsics and the harness interface.
static void retv(State& s, Inst& in, V r) { finishCall(s, top(s), in, r); }
static void reg(const std::string& n, Handler h) { g_hByName[n] = g_handlers.size(); g_handlers.push_back(h); }
static double dOf(u64 c) { double d; memcpy(&d, &c, 8); return d; }
static u64 ofD(double d) { u64 c; memcpy(&c, &d, 8); return c; }
static float fOf(u64 c) { u32 x = (u32)c; float d; memcpy(&d, &x, 4); return d; }
static u64 ofF(float d) { u32 c; memcpy(&c, &d, 4); return c; }

static u64 doAlloc(State& s, u64 n, uint8_t kind) { u32 id = allocObj(s, n, kind); memset(getObjW(s, id)->b, 0xbe, n); return addrOf(id); } // same filling as the replay build
static void doFree(State& s, u64 a) {
    if (!a) return;
    u32 id; i64 off; if (!splitAddr(a, id, off)) violate("mem.free", "free of a wild pointer");
    Obj* o = getObj(s, id);
    if (!o || off != 0 || (o->kind != 1 && o->kind != 4)) violate("mem.free", "free of a pointer that was not allocated");
    if (o->freed) violate("mem.double", "double free");
    freeObj(s, id);
}
static void copyMem(State& s, u64 d, u64 src, u64 n) {
    if (!n) return;
    i64 so, dof; u32 sid, did;
    checkAccess(s, src, n, false, so, sid); checkAccess(s, d, n, true, dof, did);
    Obj* D = getObjW(s, did); Obj* O = getObj(s, sid);
    if (!O->nsym && !D->nsym) { memmove(D->b + dof, O->b + so, n); return; }
    std::vector<uint8_t> tb(O->b + so, O->b + so + n); std::vector<Cell> tc(n, Cell{nullptr, 0});
    if (O->nsym) for (u64 i = 0; i < n; i++) tc[i] = O->s[so + i];
    if (!D->s) D->s = (Cell*)calloc(D->size ? D->size : 1, sizeof(Cell));
    for (u64 i = 0; i < n; i++) {
        if (D->s[dof + i].e) D->nsym--;
        D->s[dof + i] = tc[i]; if (tc[i].e) D->nsym++;
        D->b[dof + i] = tb[i];
    }
}
static void setMem(State& s, u64 d, V v, u64 n) {
    if (!n) return;
    i64 off; u32 id; checkAccess(s, d, n, true, off, id); Obj* D = getObjW(s, id);
    if (v.e) v = ev(mkExtract(v.e, 0, 8));
    if (!v.e && !D->nsym) { memset(D->b + off, (int)(v.c & 0xff), n); return; }
    if (!v.e) v.c &= 0xff;
    for (u64 i = 0; i < n; i++) writeBytes(D, off + i, 1, v);
}
static V cmpMem(State& s, u64 a, u64 b, u64 n, bool stopNul) {
    // symbolic-aware comparison
    std::vector<std::pair<V, V>> d;
    for (u64 i = 0; i < n; i++) {
        V x = readC(s, a + i, 1), y = readC(s, b + i, 1);
        d.push_back({x, y});
        if (!x.e && !y.e) { if (x.c != y.c) break; if (stopNul && !x.c) break; }
        else if (stopNul) unsupported("symbolic string comparison");
    }
    Expr* r = mkC(32, 0);
    for (int i = (int)d.size() - 1; i >= 0; i--) {
        Expr *x = toE(d[i].first, 8), *y = toE(d[i].second, 8);
        r = mkIte(mkBin(ULT, x, y), mkC(32, (u32)-1), mkIte(mkBin(ULT, y, x), mkC(32, 1), r));
    }
    return ev(r);
}
static void math1(const char* n, double (*fn)(double)) {
    reg(n, [fn](State& s, Inst& in, std::vector<V>& a) { u64 c = conc(s, a[0]); retv(s, in, cv(ofD(fn(dOf(c))))); });
    reg(std::string(n) + "f", [fn](State& s, Inst& in, std::vector<V>& a) { u64 c = conc(s, a[0]); retv(s, in, cv(ofF((float)fn(fOf(c))))); });
}
static void roundFn(const char* n, unsigned mode) {
    Handler h = [mode](State& s, Inst& in, std::vector<V>& a) { unsigned w = in.w; Expr* e = mkFRound(mode, toE(a[0], w)); if (e->op == FROUND && !e->fx && g_fpFork) { concretize(s, toE(a[0], w)); throw Retry(); } retv(s, in, ev(e)); };
    reg(n, h); reg(std::string(n) + "f", h);
}
static V fminmax(V a, V b, unsigned w, bool mx) {
    Expr *x = toE(a, w), *y = toE(b, w);
    Expr* lt = mx ? mkFCmp(FOLT, x, y) : mkFCmp(FOLT, y, x); // take y when lt
    Expr* nanx = mkFCmp(FUNO, x, x);
    return ev(mkIte(mkOr(lt, nanx), y, x));
}
static V mapV(Inst& in, V a, V b, std::function<V(V, V, unsigned)> g) {
    if (!in.isAgg) return g(a, b, in.w);
    unsigned ew = tw(cast<VectorType>(in.ty)->getElementType()); std::vector<V> v; auto& x = aggOf(a);
    for (size_t i = 0; i < x.size(); i++) v.push_back(g(x[i], isAgg(b) ? aggOf(b)[i] : b, ew));
    return mkAgg(std::move(v));
}
static void doAssert(State& s, V c, const std::string& id) {
    S.asserts++; S.assertIds[id]++;
    if (!c.e) { if (!(c.c & 0xffffffffull)) { report(s, s.model, "assert", id, "assertion is false on this path"); throw PathEnd{1, "", ""}; } S.discharged++; return; }
    Expr* ok = mkNot(mkEq(c.e, mkC(c.e->w, 0)));
    if (ok->isConst()) { if (ok->cv) { S.discharged++; return; } report(s, s.model, "assert", id, "assertion is false on this path"); throw PathEnd{1, "", ""}; }
    auto it = s.conc.find(ok); if (it != s.conc.end() && it->second) { S.discharged++; return; }
    S.assertQueries++;
    ModelP m;
    Res r = query(s, mkNot(ok), m);
    if (r == UNSAT) { S.discharged++; return; }
    report(s, m, "assert", id, "assertion can be false");
    Res r2 = query(s, ok, m);
    if (r2 == UNSAT) throw PathEnd{1, "", ""};
    s.model = m; addC(s, ok);
}
static void endRun(State& s);

static void registerBuiltins() {
    g_hNop = g_handlers.size(); g_handlers.push_back([](State& s, Inst& in, std::vector<V>&) { V z = in.dst >= 0 ? zeroOf(in.ty) : cv(0); retv(s, in, z); });
    g_hRetArg0 = g_handlers.size(); g_handlers.push_back([](State& s, Inst& in, std::vector<V>& a) { retv(s, in, a.empty() ? cv(0) : a[0]); });
    g_hStreamCtor = g_handlers.size(); g_handlers.push_back([](State& s, Inst& in, std::vector<V>& a) { writeC(s, conc(s, a[0]), 8, cv(g_streamVt)); retv(s, in, cv(0)); });
    g_hEmptyStr = g_handlers.size(); g_handlers.push_back([](State& s, Inst& in, std::vector<V>& a) { u64 p = conc(s, a[0]); writeC(s, p, 8, cv(p + 16)); writeC(s, p + 8, 8, cv(0)); writeC(s, p + 16, 1, cv(0)); retv(s, in, cv(0)); });
    auto H = [](auto f) { return Handler(f); };
    // ---- harness interface
    reg("vf_sym", H([](State& s, Inst& in, std::vector<V>& a) { std::string n = readStr(s, conc(s, a[0])); unsigned w = a[1].c; Expr* e = newInput(s, n, w, false, 0, 0); retv(s, in, ev(mkZExt(e, 64))); }));
    reg("vf_range", H([](State& s, Inst& in, std::vector<V>& a) { u64 lo = conc(s, a[1]), hi = conc(s, a[2]); std::string n = readStr(s, conc(s, a[0])); if ((i64)lo > (i64)hi) throw PathEnd{1, "", ""}; retv(s, in, ev(newInput(s, n, 64, true, lo, hi))); }));
    reg("vf_assume", H([](State& s, Inst& in, std::vector<V>& a) {
        if (!a[0].e) { if (!(a[0].c & 0xffffffff)) throw PathEnd{1, "", ""}; retv(s, in, cv(0)); return; }
        Expr* ok = mkNot(mkEq(a[0].e, mkC(a[0].e->w, 0))); if (ok->isConst()) { if (!ok->cv) throw PathEnd{1, "", ""}; retv(s, in, cv(0)); return; }
        ModelP m; if (query(s, ok, m) == UNSAT) throw PathEnd{1, "", ""};
        s.model = m; addC(s, ok); retv(s, in, cv(0)); }));
    reg("vf_assert", H([](State& s, Inst& in, std::vector<V>& a) { doAssert(s, a[0], readStr(s, conc(s, a[1]))); retv(s, in, cv(0)); }));
    reg("vf_cover", H([](State& s, Inst& in, std::vector<V>& a) { std::string n = readStr(s, conc(s, a[0])); if (std::find(s.covers.begin(), s.covers.end(), n) == s.covers.end()) s.covers.push_back(n); retv(s, in, cv(0)); }));
    reg("vf_note", H([](State& s, Inst& in, std::vector<V>& a) { s.notes.push_back({readStr(s, conc(s, a[0])), toE(a[1], 64)}); retv(s, in, cv(0)); }));
    reg("vf_param", H([](State& s, Inst& in, std::vector<V>& a) { std::string n = readStr(s, conc(s, a[0])); i64 v = (i64)a[1].c; auto it = g_params.find(n); if (it != g_params.end()) v = it->second; g_paramsUsed[n] = v; retv(s, in, cv((u64)v)); }));
    reg("vf_concretize", H([](State& s, Inst& in, std::vector<V>& a) { u64 v = conc(s, a[0]); retv(s, in, cv(v)); }));
    reg("vf_end", H([](State& s, Inst& in, std::vector<V>& a) { throw PathEnd{0, "", ""}; }));
    reg("vf_prune", H([](State& s, Inst& in, std::vector<V>& a) { throw PathEnd{1, "", ""}; }));
    reg("vf_fail", H([](State& s, Inst& in, std::vector<V>& a) { doAssert(s, cv(0), readStr(s, conc(s, a[0]))); }));
    reg("vf_symbolic_run", H([](State& s, Inst& in, std::vector<V>& a) { retv(s, in, cv(1)); }));
    reg("vf_yield", H([](State& s, Inst& in, std::vector<V>& a) { retv(s, in, cv(0)); schedule(s, false); }));
    // ---- allocation
    for (const char* n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "__cxa_allocate_exception"})
        reg(n, H([](State& s, Inst& in, std::vector<V>& a) { u64 n = conc(s, a[0]); retv(s, in, cv(doAlloc(s, n, 1))); }));
    reg("calloc", H([](State& s, Inst& in, std::vector<V>& a) { u64 n = conc(s, a[0]) * conc(s, a[1]); retv(s, in, cv(addrOf(allocObj(s, n, 1)))); }));
    reg("realloc", H([](State& s, Inst& in, std::vector<V>& a) { u64 p = conc(s, a[0]), n = conc(s, a[1]); u64 q = doAlloc(s, n, 1); if (p) { u32 id; i64 off; splitAddr(p, id, off); Obj* o = getObj(s, id); copyMem(s, q, p, std::min<u64>(o->size, n)); doFree(s, p); } retv(s, in, cv(q)); }));
    for (const char* n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"})
        reg(n, H([](State& s, Inst& in, std::vector<V>& a) { u64 p = conc(s, a[0]); doFree(s, p); retv(s, in, cv(0)); }));
    // ---- memory and strings
    auto mc = H([](State& s, Inst& in, std::vector<V>& a) { u64 d = conc(s, a[0]), p = conc(s, a[1]), n = conc(s, a[2]); copyMem(s, d, p, n); retv(s, in, cv(d)); });
    for (const char* n : {"memcpy", "memmove", "llvm.memcpy", "llvm.memmove", "wmemcpy"}) reg(n, mc);
    auto ms = H([](State& s, Inst& in, std::vector<V>& a) { u64 d = conc(s, a[0]), n = conc(s, a[2]); setMem(s, d, a[1], n); retv(s, in, cv(d)); });
    for (const char* n : {"memset", "llvm.memset"}) reg(n, ms);
    auto mcm = H([](State& s, Inst& in, std::vector<V>& a) { u64 d = conc(s, a[0]), p = conc(s, a[1]), n = conc(s, a[2]); retv(s, in, cmpMem(s, d, p, n, false)); });
    reg("memcmp", mcm); reg("bcmp", mcm);
    reg("strcmp", H([](State& s, Inst& in, std::vector<V>& a) { retv(s, in, cmpMem(s, conc(s, a[0]), conc(s, a[1]), 4000, true)); }));
    reg("strncmp", H([](State& s, Inst& in, std::vector<V>& a) { retv(s, in, cmpMem(s, conc(s, a[0]), conc(s, a[1]), conc(s, a[2]), true)); }));
    reg("strlen", H([](State& s, Inst& in, std::vector<V>& a) { u64 p = conc(s, a[0]); u64 n = 0; while (true) { V v = readC(s, p + n, 1); if (v.e) { if (decide(s, mkEq(v.e, mkC(8, 0)))) break; } else if (!v.c) break; n++; } retv(s, in, cv(n)); }));
    reg("memchr", H([](State& s, Inst& in, std::vector<V>& a) { u64 p = conc(s, a[0]), c = conc(s, a[1]) & 0xff, n = conc(s, a[2]); u64 r = 0; for (u64 i = 0; i < n; i++) { V v = readC(s, p + i, 1); bool hit = v.e ? decide(s, mkEq(v.e, mkC(8, c))) : v.c == c; if (hit) { r = p + i; break; } } retv(s, in, cv(r)); }));
    // ---- C++ runtime
    reg("__cxa_free_exception", H([](State& s, Inst& in, std::vector<V>& a) { retv(s, in, cv(0)); }));
    reg("__cxa_throw", H([](State& s, Inst& in, std::vector<V>& a) { s.excs.push_back({a[0].c, a[1].c, a[0].c, 0}); unwind(s, a[0].c, true); }));
    reg("__cxa_begin_catch", H([](State& s, Inst& in, std::vector<V>& a) { u64 o = a[0].c; s.caught.push_back(o); u64 adj = o; for (auto& e : s.excs) if (e.obj == o) { adj = e.adjusted; e.handlers++; } retv(s, in, cv(adj)); }));
    reg("__cxa_get_exception_ptr", H([](State& s, Inst& in, std::vector<V>& a) { u64 o = a[0].c; u64 adj = o; for (auto& e : s.excs) if (e.obj == o) adj = e.adjusted; retv(s, in, cv(adj)); }));
    reg("__cxa_end_catch", H([](State& s, Inst& in, std::vector<V>& a) { if (!s.caught.empty()) s.caught.pop_back(); retv(s, in, cv(0)); }));
    reg("__cxa_rethrow", H([](State& s, Inst& in, std::vector<V>& a) { if (s.caught.empty()) violate("terminate", "rethrow without exception"); u64 o = s.caught.back(); unwind(s, o, true); }));
    reg("__cxa_guard_acquire", H([](State& s, Inst& in, std::vector<V>& a) { V v = readC(s, a[0].c, 1); retv(s, in, cv(v.c == 0)); }));
    reg("__cxa_guard_release", H([](State& s, Inst& in, std::vector<V>& a) { writeC(s, a[0].c, 1, cv(1)); retv(s, in, cv(0)); }));
    g_hByName["__cxa_guard_abort"] = g_hNop; g_hByName["__cxa_atexit"] = g_hNop; g_hByName["atexit"] = g_hNop; g_hByName["_ZSt18uncaught_exceptionv"] = g_hNop; g_hByName["_ZSt19uncaught_exceptionsv"] = g_hNop;
    reg("__dynamic_cast", H([](State& s, Inst& in, std::vector<V>& a) { u64 p = conc(s, a[0]); retv(s, in, cv(dynCast(s, p, a[2].c))); }));
    reg("__cxa_pure_virtual", H([](State& s, Inst& in, std::vector<V>& a) { violate("pure", "pure virtual call"); }));
    reg("__cxa_bad_cast", H([](State& s, Inst& in, std::vector<V>& a) { violate("bad_cast", "bad dynamic_cast"); }));
    reg("__cxa_throw_bad_array_new_length", H([](State& s, Inst& in, std::vector<V>& a) { violate("alloc", "bad array length"); }));
    for (const char* n : {"_ZSt9terminatev", "abort", "__cxa_call_unexpected"}) reg(n, H([](State& s, Inst& in, std::vector<V>& a) { violate("abort", "program aborts or terminates"); }));
    g_hByName["vf_unused"] = g_hNop; g_hByName["__asan_poison_cxx_array_cookie"] = g_hNop;
    reg("__asan_load_cxx_array_cookie", H([](State& s, Inst& in, std::vector<V>& a) { retv(s, in, readC(s, conc(s, a[0]), 8)); }));
    for (const char* n : {"exit", "_exit"}) reg(n, H([](State& s, Inst& in, std::vector<V>& a) { violate("exit", "program calls exit"); }));
    reg("__assert_fail", H([](State& s, Inst& in, std::vector<V>& a) { violate("assert_fail", "assert: " + readStr(s, a[0].c)); }));
    // ---- numeric
    math1("exp", std::exp); math1("exp2", std::exp2); math1("log", std::log); math1("log10", std::log10); math1("log2", std::log2); math1("sin", std::sin); math1("cos", std::cos); math1("tan", std::tan); math1("atan", std::atan); math1("acos", std::acos); math1("asin", std::asin); math1("tanh", std::tanh); math1("sinh", std::sinh); math1("cosh", std::cosh); math1("expm1", std::expm1); math1("log1p", std::log1p); math1("cbrt", std::cbrt); math1("erf", std::erf); math1("tgamma", std::tgamma); math1("lgamma", std::lgamma);
    for (const char* n : {"exp", "log", "log10", "log2", "sin", "cos"}) g_hByName[std::string("llvm.") + n] = -2; // replaced below per width
    auto m1 = [&](const char* n, double (*fn)(double)) { reg(std::string("llvm.") + n, Handler([fn](State& s, Inst& in, std::vector<V>& a) { u64 c = conc(s, a[0]); retv(s, in, cv(in.w == 64 ? ofD(fn(dOf(c))) : ofF((float)fn(fOf(c))))); })); };
    m1("exp", std::exp); m1("log", std::log); m1("log10", std::log10); m1("log2", std::log2); m1("sin", std::sin); m1("cos", std::cos); m1("exp2", std::exp2);
    auto sq = H([](State& s, Inst& in, std::vector<V>& a) { u64 c = conc(s, a[0]); retv(s, in, cv(in.w == 64 ? ofD(std::sqrt(dOf(c))) : ofF(std::sqrt(fOf(c))))); });
    reg("sqrt", sq); reg("sqrtf", sq); reg("llvm.sqrt", sq);
    auto pw = H([](State& s, Inst& in, std::vector<V>& a) { u64 c = conc(s, a[0]), d = conc(s, a[1]); retv(s, in, cv(in.w == 64 ? ofD(std::pow(dOf(c), dOf(d))) : ofF(std::pow(fOf(c), fOf(d))))); });
    reg("pow", pw); reg("powf", pw); reg("llvm.pow", pw);
    reg("llvm.powi", H([](State& s, Inst& in, std::vector<V>& a) { u64 c = conc(s, a[0]), d = conc(s, a[1]); retv(s, in, cv(ofD(std::pow(dOf(c), (int)d)))); }));
    reg("atan2", H([](State& s, Inst& in, std::vector<V>& a) { u64 c = conc(s, a[0]), d = conc(s, a[1]); retv(s, in, cv(ofD(std::atan2(dOf(c), dOf(d))))); }));
    reg("hypot", H([](State& s, Inst& in, std::vector<V>& a) { u64 c = conc(s, a[0]), d = conc(s, a[1]); retv(s, in, cv(ofD(std::hypot(dOf(c), dOf(d))))); }));
    reg("ldexp", H([](State& s, Inst& in, std::vector<V>& a) { u64 c = conc(s, a[0]), d = conc(s, a[1]); retv(s, in, cv(ofD(std::ldexp(dOf(c), (int)d)))); }));
    reg("llvm.ldexp", H([](State& s, Inst& in, std::vector<V>& a) { u64 c = conc(s, a[0]), d = conc(s, a[1]); retv(s, in, cv(ofD(std::ldexp(dOf(c), (int)d)))); }));
    reg("frexp", H([](State& s, Inst& in, std::vector<V>& a) { u64 c = conc(s, a[0]); int e; double m = std::frexp(dOf(c), &e); writeC(s, conc(s, a[1]), 4, cv((u32)e)); retv(s, in, cv(ofD(m))); }));
    auto fmodh = H([](State& s, Inst& in, std::vector<V>& a) { retv(s, in, fbin(s, FREM, a[0], a[1], in.w)); }); reg("fmod", fmodh); reg("fmodf", fmodh);
    reg("modf", H([](State& s, Inst& in, std::vector<V>& a) { Expr* x = toE(a[0], 64); Expr* t = mkFRound(2, x); if (t->op == FROUND && !t->fx) { concretize(s, x); throw Retry(); } writeC(s, conc(s, a[1]), 8, ev(t)); retv(s, in, ev(mkFBin(FSUB, x, t))); }));
    roundFn("floor", 0); roundFn("ceil", 1); roundFn("trunc", 2); roundFn("rint", 3); roundFn("nearbyint", 3); roundFn("round", 4);
    for (auto& p : std::vector<std::pair<const char*, const char*>>{{"llvm.floor", "floor"}, {"llvm.ceil", "ceil"}, {"llvm.trunc", "trunc"}, {"llvm.rint", "rint"}, {"llvm.nearbyint", "nearbyint"}, {"llvm.round", "round"}, {"llvm.roundeven", "rint"}}) g_hByName[p.first] = g_hByName[p.second];
    auto lr = H([](State& s, Inst& in, std::vector<V>& a) { unsigned w = in.I->getOperand(0)->getType()->isFloatTy() ? 32 : 64; Expr* e = mkFRound(4, toE(a[0], w)); if (e->op == FROUND && !e->fx) { concretize(s, toE(a[0], w)); throw Retry(); } retv(s, in, ev(mkFToI(FTOSI, e, in.w))); });
    for (const char* n : {"lround", "llround", "llvm.lround", "llvm.llround", "lroundf"}) reg(n, lr);
    auto lri = H([](State& s, Inst& in, std::vector<V>& a) { unsigned w = in.I->getOperand(0)->getType()->isFloatTy() ? 32 : 64; Expr* e = mkFRound(3, toE(a[0], w)); if (e->op == FROUND && !e->fx) { concretize(s, toE(a[0], w)); throw Retry(); } retv(s, in, ev(mkFToI(FTOSI, e, in.w))); });
    for (const char* n : {"lrint", "llrint", "llvm.lrint", "llvm.llrint"}) reg(n, lri);
    auto fa = H([](State& s, Inst& in, std::vector<V>& a) { retv(s, in, mapV(in, a[0], cv(0), [](V x, V, unsigned w) { if (w > 64) { return ev(mkBin(AND, toE(x, w), mkC(w, maskW(79)))); } return ev(mkFAbs(toE(x, w))); })); }); reg("fabs", fa); reg("fabsf", fa); reg("llvm.fabs", fa);
    auto fmx = H([](State& s, Inst& in, std::vector<V>& a) { retv(s, in, fminmax(a[0], a[1], in.w, true)); }); auto fmn = H([](State& s, Inst& in, std::vector<V>& a) { retv(s, in, fminmax(a[0], a[1], in.w, false)); });
    reg("fmax", fmx); reg("llvm.maxnum", fmx); reg("llvm.maximum", fmx); reg("fmin", fmn); reg("llvm.minnum", fmn); reg("llvm.minimum", fmn);
    reg("llvm.copysign", H([](State& s, Inst& in, std::vector<V>& a) { u64 x = conc(s, a[0]), y = conc(s, a[1]); retv(s, in, cv(in.w == 64 ? ofD(std::copysign(dOf(x), dOf(y))) : ofF(std::copysign(fOf(x), fOf(y))))); }));
    g_hByName["copysign"] = g_hByName["llvm.copysign"];
    reg("llvm.fmuladd", H([](State& s, Inst& in, std::vector<V>& a) { V p = mapV(in, a[0], a[1], [&](V x, V y, unsigned w) { return fbin(s, FMUL, x, y, w); }); retv(s, in, mapV(in, p, a[2], [&](V x, V y, unsigned w) { return fbin(s, FADD, x, y, w); })); }));
    reg("llvm.is.fpclass", H([](State& s, Inst& in, std::vector<V>& a) { unsigned w = in.I->getOperand(0)->getType()->isFloatTy() ? 32 : 64; u64 m = a[1].c; Expr* x = toE(a[0], w); Expr* r = mkC(1, 0);
        Expr* ab = mkFAbs(x); Expr* inf = mkC(w, w == 64 ? 0x7ff0000000000000ull : 0x7f800000u); Expr* isn = mkFCmp(FUNO, x, x); Expr* isi = mkFCmp(FOEQ, ab, inf);
        u64 covered = 0;
        if ((m & 3) == 3) { r = mkOr(r, isn); covered |= 3; } if ((m & 0x204) == 0x204) { r = mkOr(r, isi); covered |= 0x204; } if ((m & 0x1f8) == 0x1f8) { r = mkOr(r, mkAnd(mkNot(isn), mkNot(isi))); covered |= 0x1f8; }
        if (covered != m) { u64 c = conc(s, a[0]); double d = w == 64 ? dOf(c) : fOf(c); bool q = false; bool neg = std::signbit(d); switch (std::fpclassify(d)) { case FP_NAN: q = m & 3; break; case FP_INFINITE: q = m & (neg ? 4 : 0x200); break; case FP_NORMAL: q = m & (neg ? 8 : 0x100); break; case FP_SUBNORMAL: q = m & (neg ? 16 : 0x80); break; default: q = m & (neg ? 32 : 0x40); } r = mkC(1, q); }
        retv(s, in, ev(r)); }));
    auto mm = [&](const char* n, Op cmp, bool takeFirstIfLess) { reg(n, Handler([cmp, takeFirstIfLess](State& s, Inst& in, std::vector<V>& a) { retv(s, in, mapV(in, a[0], a[1], [&](V p, V q, unsigned w) { Expr *x = toE(p, w), *y = toE(q, w); Expr* lt = mkBin(cmp, x, y); return ev(takeFirstIfLess ? mkIte(lt, x, y) : mkIte(lt, y, x)); })); })); };
    mm("llvm.umin", ULT, true); mm("llvm.umax", ULT, false); mm("llvm.smin", SLT, true); mm("llvm.smax", SLT, false);
    reg("llvm.abs", H([](State& s, Inst& in, std::vector<V>& a) { Expr* x = toE(a[0], in.w); retv(s, in, ev(mkIte(mkBin(SLT, x, mkC(in.w, 0)), mkBin(SUB, mkC(in.w, 0), x), x))); }));
    for (const char* n : {"abs", "labs", "llabs"}) g_hByName[n] = g_hByName["llvm.abs"];
    auto cnt = H([](State& s, Inst& in, std::vector<V>& a) { Expr* x = toE(a[0], in.w); Expr* r = mkC(in.w, 0); for (unsigned i = 0; i < in.w; i++) r = mkBin(ADD, r, mkZExt(mkExtract(x, i, 1), in.w)); retv(s, in, ev(r)); }); reg("llvm.ctpop", cnt);
    reg("llvm.cttz", H([](State& s, Inst& in, std::vector<V>& a) { Expr* x = toE(a[0], in.w); Expr* r = mkC(in.w, in.w); for (int i = in.w - 1; i >= 0; i--) r = mkIte(mkExtract(x, i, 1), mkC(in.w, i), r); retv(s, in, ev(r)); }));
    reg("llvm.ctlz", H([](State& s, Inst& in, std::vector<V>& a) { Expr* x = toE(a[0], in.w); Expr* r = mkC(in.w, in.w); for (int i = 0; i < in.w; i++) r = mkIte(mkExtract(x, i, 1), mkC(in.w, in.w - 1 - i), r); retv(s, in, ev(r)); }));
    reg("llvm.bswap", H([](State& s, Inst& in, std::vector<V>& a) { Expr* x = toE(a[0], in.w); Expr* r = nullptr; for (int i = 0; i < in.w; i += 8) { Expr* b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; } retv(s, in, ev(r)); }));
    auto fsh = [&](const char* n, bool left) { reg(n, Handler([left](State& s, Inst& in, std::vector<V>& a) { u64 k = conc(s, a[2]) % in.w; Expr* c = mkConcat(toE(a[0], in.w), toE(a[1], in.w)); unsigned sh = left ? in.w - k : k; retv(s, in, ev(sh == in.w ? toE(a[0], in.w) : sh == 0 ? toE(a[1], in.w) : mkExtract(c, sh, in.w))); })); };
    fsh("llvm.fshl", true); fsh("llvm.fshr", false);
    auto ovf = [&](const char* n, Op op, bool sg) { reg(n, Handler([op, sg](State& s, Inst& in, std::vector<V>& a) { unsigned w = tw(in.I->getOperand(0)->getType()); Expr *x = toE(a[0], w), *y = toE(a[1], w); unsigned W = w <= 64 ? w * 2 : 128; Expr* r = mkBin(op, x, y); Expr* wide = mkBin(op, sg ? mkSExt(x, W) : mkZExt(x, W), sg ? mkSExt(y, W) : mkZExt(y, W)); Expr* o = mkNot(mkEq(wide, sg ? mkSExt(r, W) : mkZExt(r, W)));
        if (op == SUB && !sg) o = mkBin(ULT, x, y); retv(s, in, mkAgg({ev(r), ev(o)})); })); };
    ovf("llvm.uadd.with.overflow", ADD, false); ovf("llvm.sadd.with.overflow", ADD, true); ovf("llvm.usub.with.overflow", SUB, false); ovf("llvm.ssub.with.overflow", SUB, true); ovf("llvm.umul.with.overflow", MUL, false); ovf("llvm.smul.with.overflow", MUL, true);
    reg("llvm.usub.sat", H([](State& s, Inst& in, std::vector<V>& a) { Expr *x = toE(a[0], in.w), *y = toE(a[1], in.w); retv(s, in, ev(mkIte(mkBin(ULT, x, y), mkC(in.w, 0), mkBin(SUB, x, y)))); }));
    reg("llvm.uadd.sat", H([](State& s, Inst& in, std::vector<V>& a) { Expr *x = toE(a[0], in.w), *y = toE(a[1], in.w); Expr* r = mkBin(ADD, x, y); retv(s, in, ev(mkIte(mkBin(ULT, r, x), mkC(in.w, maskW(in.w)), r))); }));
    auto red = [&](const char* n, Op op) { reg(n, Handler([op](State& s, Inst& in, std::vector<V>& a) { unsigned w = in.w; V r{}; bool f = true; for (V x : aggOf(a[0])) { r = f ? x : binop(op, r, x, w); f = false; } retv(s, in, r); })); };
    red("llvm.vector.reduce.add", ADD); red("llvm.vector.reduce.or", OR); red("llvm.vector.reduce.and", AND); red("llvm.vector.reduce.xor", XOR); red("llvm.vector.reduce.mul", MUL);
    auto expct = H([](State& s, Inst& in, std::vector<V>& a) { retv(s, in, a[0]); });
    for (const char* n : {"llvm.expect", "llvm.expect.with.probability", "llvm.launder.invariant.group", "llvm.strip.invariant.group", "llvm.ssa.copy", "llvm.annotation", "llvm.ptr.annotation", "llvm.arithmetic.fence"}) reg(n, expct);
    for (const char* n : {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.assume", "llvm.donothing", "llvm.stackrestore", "llvm.stacksave", "llvm.invariant.start", "llvm.invariant.end", "llvm.experimental.noalias.scope.decl", "llvm.prefetch", "llvm.var.annotation", "llvm.dbg.value", "llvm.dbg.declare", "llvm.sideeffect", "llvm.va_start", "llvm.va_end"}) g_hByName[n] = g_hNop;
    reg("llvm.trap", H([](State& s, Inst& in, std::vector<V>& a) { violate("trap", "trap"); }));
    reg("llvm.ubsantrap", H([](State& s, Inst& in, std::vector<V>& a) { violate("trap", "trap"); }));
    reg("llvm.eh.typeid.for", H([](State& s, Inst& in, std::vector<V>& a) { retv(s, in, cv((u32)tidOf(s, a[0].c))); }));
    reg("llvm.objectsize", H([](State& s, Inst& in, std::vector<V>& a) { retv(s, in, cv(mask64(in.w))); }));
    reg("llvm.is.constant", H([](State& s, Inst& in, std::vector<V>& a) { retv(s, in, cv(0)); }));
    reg("llvm.threadlocal.address", expct);
    // ---- environment
    reg("time", H([](State& s, Inst& in, std::vector<V>& a) { u64 p = conc(s, a[0]); if (p) writeC(s, p, 8, cv(1000000)); retv(s, in, cv(1000000)); }));
    reg("clock", H([](State& s, Inst& in, std::vector<V>& a) { retv(s, in, cv(1000)); }));
    reg("_ZNSt6chrono3_V212system_clock3nowEv", H([](State& s, Inst& in, std::vector<V>& a) { retv(s, in, cv(1000000)); }));
    reg("_ZNSt6chrono3_V212steady_clock3nowEv", H([](State& s, Inst& in, std::vector<V>& a) { retv(s, in, cv(1000000)); }));
    for (const char* n : {"printf", "puts", "putchar", "fprintf", "fflush", "fputs", "fputc", "fwrite", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "getpid"}) g_hByName[n] = g_hNop;
    auto yield = H([](State& s, Inst& in, std::vector<V>& a) { retv(s, in, cv(0)); schedule(s, false); }); for (const char* n : {"usleep", "sched_yield", "nanosleep"}) reg(n, yield);
    // ---- threads
    reg("_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", H([](State& s, Inst& in, std::vector<V>& a) {
        u64 up = a[1].c; u64 st = readC64(s, up); writeC(s, up, 8, cv(0));
        u64 vt = readC64(s, st); u64 fnp = readC64(s, vt + 16); u32 id; i64 off; splitAddr(fnp, id, off); FnInfo* fn = g_fnByObj[id];
        int n = s.th.size(); writeC(s, a[0].c, 8, cv(n));
        retv(s, in, cv(0));
        s.th.push_back(Thread()); s.th.back().id = n; std::vector<V> args{cv(st)}; pushFrame(s, s.th.back(), fn, args);
        schedule(s, false); }));
    reg("_ZNSt6thread4joinEv", H([](State& s, Inst& in, std::vector<V>& a) { u64 t = readC64(s, a[0].c); writeC(s, a[0].c, 8, cv(0)); retv(s, in, cv(0)); if (s.th[t].status != 4) { Thread& me = curT(s); me.status = 3; me.waitOn = t; schedule(s, true); } }));
    reg("_ZNSt6thread6detachEv", H([](State& s, Inst& in, std::vector<V>& a) { writeC(s, a[0].c, 8, cv(0)); retv(s, in, cv(0)); }));
    reg("_ZNSt6thread20hardware_concurrencyEv", H([](State& s, Inst& in, std::vector<V>& a) { retv(s, in, cv(4)); }));
    reg("pthread_self", H([](State& s, Inst& in, std::vector<V>& a) { retv(s, in, cv(s.cur + 1)); }));
    reg("pthread_mutex_lock", H([](State& s, Inst& in, std::vector<V>& a) { u64 m = a[0].c; retv(s, in, cv(0)); if (s.th.size() == 1 && s.mutexes[m] == 0) { s.mutexes[m] = s.cur + 1; } else { if (s.mutexes[m] == s.cur + 1) violate("deadlock", "relock of a non-recursive mutex"); Thread& me = curT(s); me.status = 1; me.waitOn = m; schedule(s, s.mutexes[m] != 0); } }));
    reg("pthread_mutex_trylock", H([](State& s, Inst& in, std::vector<V>& a) { u64 m = a[0].c; if (s.mutexes[m] == 0) { s.mutexes[m] = s.cur + 1; retv(s, in, cv(0)); } else retv(s, in, cv(16)); }));
    reg("pthread_mutex_unlock", H([](State& s, Inst& in, std::vector<V>& a) { u64 m = a[0].c; retv(s, in, cv(0)); s.mutexes[m] = 0; schedule(s, false); }));
    g_hByName["pthread_mutex_init"] = g_hNop; g_hByName["pthread_mutex_destroy"] = g_hNop; g_hByName["_ZNSt18condition_variableC1Ev"] = g_hNop; g_hByName["_ZNSt18condition_variableD1Ev"] = g_hNop;
    reg("_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", H([](State& s, Inst& in, std::vector<V>& a) { u64 mx = readC64(s, a[1].c); retv(s, in, cv(0)); Thread& me = curT(s); s.mutexes[mx] = 0; me.status = 2; me.waitOn = a[0].c; me.waitMx = mx; schedule(s, true); }));
    auto wake = [](State& s, u64 c, bool all) { // waiting threads then compete for the mutex
        for (auto& t : s.th) if (t.status == 2 && t.waitOn == c) { t.status = 1; t.waitOn = t.waitMx; if (!all) break; } };
    reg("_ZNSt18condition_variable10notify_oneEv", Handler([wake](State& s, Inst& in, std::vector<V>& a) { retv(s, in, cv(0)); wake(s, a[0].c, false); schedule(s, false); }));
    reg("_ZNSt18condition_variable10notify_allEv", Handler([wake](State& s, Inst& in, std::vector<V>& a) { retv(s, in, cv(0)); wake(s, a[0].c, true); schedule(s, false); }));
}

static bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
static int builtinFor(FnInfo* f) {
    auto it = g_hByName.find(f->name); if (it != g_hByName.end() && it->second >= 0) return it->second;
    if (starts(f->name, "llvm.")) {
        // strip type suffixes progressively
        std::string n = f->name;
        while (true) { auto jt = g_hByName.find(n); if (jt != g_hByName.end() && jt->second >= 0) return jt->second; size_t k = n.rfind('.'); if (k == std::string::npos || k <= 4) break; n = n.substr(0, k); }
        return -2;
    }
    if (!f->F->isDeclaration()) return -2;
    const std::string& d = f->dem;
    // output is not observed: stream insertions return their stream
    if (d.find("operator<<") != std::string::npos || d.find("std::ostream::") != std::string::npos || d.find("std::basic_ostream<") == 0 || d.find("std::__ostream_insert") != std::string::npos || d.find("std::endl") != std::string::npos || d.find("std::flush") != std::string::npos || d.find(" std::endl<") != std::string::npos) return g_hRetArg0;
    if (d.find("basic_ostringstream") != std::string::npos || d.find("basic_stringstream") != std::string::npos || d.find("basic_ofstream") != std::string::npos || d.find("basic_fstream") != std::string::npos || d.find("basic_ifstream") != std::string::npos || d.find("basic_filebuf") != std::string::npos || d.find("basic_istringstream") != std::string::npos || d.find("basic_stringbuf") != std::string::npos) {
        if (d.find("::str() const") != std::string::npos) return g_hEmptyStr;
        if (d.find("basic_stringbuf") == std::string::npos && d.find("basic_filebuf") == std::string::npos && d.find('~') == std::string::npos && (d.find("stream(") != std::string::npos)) return g_hStreamCtor;
        return g_hNop;
    }
    if (d.find("std::ios_base::") != std::string::npos || d.find("std::basic_ios<") == 0 || d.find("std::locale::") == 0) return g_hNop;
    return -2;
}
