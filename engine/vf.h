// Harness interface.  Under the symbolic executor these are built in; in the replay build
// they are implemented by vf_native.cpp, which reads the solver's values from a file.
#pragma once
#include <stdint.h>
extern "C" {
uint64_t vf_sym(const char* name, unsigned width);                 // arbitrary value of that bit width
int64_t vf_range(const char* name, int64_t lo, int64_t hi);        // arbitrary value in [lo,hi]
void vf_assume(int c);
void vf_assert(int c, const char* id);
void vf_fail(const char* id);
void vf_cover(const char* name);                                   // must be reached by some path
void vf_note(const char* name, int64_t v);                         // compared between the executor and the replay
int64_t vf_param(const char* name, int64_t def);                   // bound, set per tier
int64_t vf_concretize(int64_t v);                                  // forks over the feasible values
void vf_prune();                                                   // outside the stated bounds
int vf_symbolic_run();
void vf_yield();
}
#define ENTRY(n) extern "C" __attribute__((used)) void n()
