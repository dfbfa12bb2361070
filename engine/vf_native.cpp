// Replay runtime: the same harness and sources, compiled natively, driven by recorded inputs.
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <exception>
#include <unistd.h>
#include <dlfcn.h>
#include <pthread.h>
#include <time.h>
#include <ucontext.h>
static std::vector<std::pair<std::string, long long>> g_in; static size_t g_pos;
static std::map<std::string, long long> g_par;
static long long next(const char* name) {
    if (g_pos >= g_in.size()) { printf("VF-INPUTS-EXHAUSTED %s\n", name); fflush(stdout); _exit(45); }
    if (g_in[g_pos].first != name) { printf("VF-INPUT-MISMATCH expected %s got %s\n", g_in[g_pos].first.c_str(), name); fflush(stdout); _exit(45); }
    return g_in[g_pos++].second;
}
extern "C" {
uint64_t vf_sym(const char* n, unsigned) { return (uint64_t)next(n); }
int64_t vf_range(const char* n, int64_t, int64_t) { return next(n); }
void vf_assume(int c) { if (!c) { printf("VF-ASSUME-FALSE\n"); fflush(stdout); _exit(43); } }
void vf_assert(int c, const char* id) { if (!c) { printf("VF-ASSERT %s\n", id); fflush(stdout); _exit(42); } }
void vf_fail(const char* id) { vf_assert(0, id); }
void vf_cover(const char*) {}
void vf_note(const char* n, int64_t v) { printf("VF-NOTE %s %lld\n", n, (long long)v); }
int64_t vf_param(const char* n, int64_t d) { auto it = g_par.find(n); return it == g_par.end() ? d : it->second; }
int64_t vf_concretize(int64_t v) { return v; }
void vf_prune() { printf("VF-PRUNE\n"); fflush(stdout); _exit(43); }
int vf_symbolic_run() { return 0; }
}
// Threads of the code under test run as coroutines that change only where the symbolic scheduler
// changes them: starts, joins, mutexes, sleeps. Choices come from the recorded inputs.
struct Fib { ucontext_t c; int status; size_t on; void* st; };
static std::vector<Fib*>* g_fib; static size_t g_cur; static long long g_sched; static std::map<size_t, size_t>* g_mx;
static bool canRun(Fib* f) { return f->status == 0 || (f->status == 1 && (*g_mx)[f->on] == 0) || (f->status == 3 && (*g_fib)[f->on]->status == 4); }
static void schedule(bool) {
    if (!g_fib) return;
    std::vector<size_t> r; for (size_t i = 0; i < g_fib->size(); i++) if (canRun((*g_fib)[i])) r.push_back(i);
    if (r.empty()) { printf("VF-DEADLOCK\n"); fflush(stdout); _exit(48); }
    size_t nx = r[0];
    if (r.size() > 1) { auto fair = g_par.find("fair"); if (fair != g_par.end() && g_sched >= fair->second) { for (size_t t : r) if (t > g_cur) { nx = t; break; } } else { nx = r[next("sched")]; g_sched++; } }
    Fib *f = (*g_fib)[nx], *me = (*g_fib)[g_cur]; if (f->status == 1) (*g_mx)[f->on] = nx + 1; if (f->status != 4) f->status = 0;
    if (nx == g_cur) return; g_cur = nx; swapcontext(&me->c, &f->c);
}
static void fibMain() { Fib* f = (*g_fib)[g_cur]; void** vt = *(void***)f->st; ((void (*)(void*))vt[2])(f->st); f->status = 4; schedule(true); }
extern "C" {
void _ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(size_t* self, void** up, void*) {
    if (!g_fib) { g_fib = new std::vector<Fib*>; g_mx = new std::map<size_t, size_t>; g_fib->push_back(new Fib()); }
    Fib* f = new Fib(); f->st = *up; *up = nullptr; getcontext(&f->c); f->c.uc_stack.ss_size = 1 << 20; f->c.uc_stack.ss_sp = malloc(1 << 20); f->c.uc_link = nullptr; makecontext(&f->c, fibMain, 0); *self = g_fib->size(); g_fib->push_back(f); schedule(false);
}
void _ZNSt6thread4joinEv(size_t* self) { size_t t = *self; *self = 0; if ((*g_fib)[t]->status != 4) { Fib* me = (*g_fib)[g_cur]; me->status = 3; me->on = t; schedule(true); } }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (!g_fib) return 0; size_t a = (size_t)m; if ((*g_mx)[a] == g_cur + 1) { printf("VF-DEADLOCK\n"); fflush(stdout); _exit(48); } if (g_fib->size() == 1 && (*g_mx)[a] == 0) (*g_mx)[a] = g_cur + 1; else { Fib* me = (*g_fib)[g_cur]; me->status = 1; me->on = a; schedule(false); } return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (!g_fib) return 0; (*g_mx)[(size_t)m] = 0; schedule(false); return 0; }
int nanosleep(const struct timespec*, struct timespec*) { schedule(false); return 0; }
void vf_yield() { schedule(false); }
}
// usage: replay ENTRY INPUTFILE
int main(int argc, char** argv) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    FILE* f = fopen(argv[2], "r"); if (!f) { perror(argv[2]); return 46; }
    char kind[16], name[256]; long long v;
    while (fscanf(f, "%15s %255s %lld", kind, name, &v) == 3) { if (!strcmp(kind, "in")) g_in.push_back({name, v}); else g_par[name] = v; }
    fclose(f);
    void (*e)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!e) { printf("no entry %s\n", argv[1]); return 46; }
    std::set_terminate([] { printf("VF-TERMINATE uncaught exception\n"); fflush(stdout); _exit(47); });
    e();
    printf("VF-END\n"); fflush(stdout);
    _exit(0);
}
