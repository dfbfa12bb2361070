// Shared parts of the harnesses: symbolic environment and a minimal individual.
#pragma once
#include "vf.h"
#include <algorithm>
#include <vector>
#include <limits>
#include <random>
#include <string>
#include <cstring>

// ---- generator stub: eoRng::rand() returns an arbitrary 32-bit word at every call.
// With vf_rbits < 32 the word has that many free leading bits and a free fill bit for the rest.
// Integer draws are also recorded, so that a harness can tell which contestants were drawn.
extern "C" { extern uint32_t vf_log[64]; extern unsigned vf_nlog; extern uint32_t vf_last_rand; extern unsigned vf_draws, vf_max_draws, vf_rbits, vf_split_random; extern const void* vf_last_gen; }
#ifndef VF_NO_STUBS
uint32_t vf_log[64], vf_last_rand = 0; unsigned vf_nlog = 0;
unsigned vf_draws = 0, vf_max_draws = 12, vf_rbits = 32, vf_split_random = 0; const void* vf_last_gen = 0;
extern "C" __attribute__((used)) uint32_t vf_rand_stub(void* gen) {
    vf_last_gen = gen;
    if (++vf_draws > vf_max_draws) vf_prune();
    if (vf_rbits >= 32) return vf_last_rand = (uint32_t)vf_sym("rand", 32);
    uint32_t v = (uint32_t)vf_sym("rand", vf_rbits + 1), lowmask = (1u << (32 - vf_rbits)) - 1;
    return vf_last_rand = ((v >> 1) << (32 - vf_rbits)) | ((0u - (v & 1u)) & lowmask);
}
// eoRng::random(m) returns an arbitrary value below m (0 for m = 0); C06 establishes that contract on the real function.
extern "C" __attribute__((used)) uint32_t vf_random_stub(void* gen, uint32_t m) {
    vf_last_gen = gen;
    if (m <= 1) { if (vf_nlog < 64) vf_log[vf_nlog++] = 0; return 0; }
    if (++vf_draws > vf_max_draws) vf_prune();
    int64_t r = vf_range("random", 0, (int64_t)m - 1);
    if (vf_split_random) r = vf_concretize(r);
    if (vf_nlog < 64) vf_log[vf_nlog++] = (uint32_t)r;
    return (uint32_t)r;
}
// libc rand() returns an arbitrary value of 0..RAND_MAX.
extern "C" __attribute__((used)) int vf_crand_stub(void) {
    if (++vf_draws > vf_max_draws) vf_prune();
    return (int)vf_sym("crand", 31);
}
// eoRng::normal() returns an arbitrary multiple of 1/16 in [-8,8].
extern "C" __attribute__((used)) double vf_normal_stub(void*) {
    if (++vf_draws > vf_max_draws) vf_prune();
    return (double)vf_range("normal", -128, 128) * 0.0625;
}
// <random>: the device is inert, distributions return an arbitrary value of their range.
extern "C" __attribute__((used)) void vf_rd_init(void*, const std::string&) {}
extern "C" __attribute__((used)) void vf_rd_fini(void*) {}
extern "C" __attribute__((used)) unsigned vf_rd_get(void*) { return 5489u; }
extern "C" __attribute__((used)) void vf_mt_seed(void*, unsigned long) {}
template <class T> static T vfUid(const typename std::uniform_int_distribution<T>::param_type& p) {
    if (p.a() == p.b()) return p.a();
    if (++vf_draws > vf_max_draws) vf_prune();
    return (T)vf_concretize(vf_range("uid", p.a(), p.b()));
}
extern "C" __attribute__((used)) unsigned long vf_uid_ul(void*, void*, const std::uniform_int_distribution<unsigned long>::param_type& p) { return vfUid<unsigned long>(p); }
extern "C" __attribute__((used)) long vf_uid_l(void*, void*, const std::uniform_int_distribution<long>::param_type& p) { return vfUid<long>(p); }
extern "C" __attribute__((used)) unsigned vf_uid_u(void*, void*, const std::uniform_int_distribution<unsigned>::param_type& p) { return vfUid<unsigned>(p); }
extern "C" __attribute__((used)) int vf_uid_i(void*, void*, const std::uniform_int_distribution<int>::param_type& p) { return vfUid<int>(p); }
extern "C" __attribute__((used)) double vf_urd(void*, void*, const std::uniform_real_distribution<double>::param_type& p) {
    if (++vf_draws > vf_max_draws) vf_prune();
    return p.a() + (p.b() - p.a()) * ((double)(uint32_t)vf_sym("urd", 32) * (1.0 / 4294967296.0));
}
#endif
static inline int vfInt(const char* n, int lo, int hi) { return (int)vf_range(n, lo, hi); }
static inline int vfPick(const char* n, int lo, int hi) { return (int)vf_concretize(vf_range(n, lo, hi)); }
static inline int P(const char* n, int d) { return (int)vf_param(n, d); }
static inline double vfDouble(const char* n) { uint64_t b = vf_sym(n, 64); double d; memcpy(&d, &b, 8); return d; }
