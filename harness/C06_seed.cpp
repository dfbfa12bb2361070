// C06: the generator itself, unstubbed.
//@ nostub vf_rand_stub
//@ nostub vf_random_stub
//@ bounds generators built from one arbitrary 32-bit seed; the first n words compared one by one
//@ outside the statistical quality of the words; words beyond the first n
//@ entry reseeding covers=done quick="n=700" thorough="n=1300"
//@ entry seeding covers=done quick="n=700" thorough="n=1300"
#include "common.h"
#include <eo>
ENTRY(seeding) {
    uint32_t s = (uint32_t)vf_sym("seed", 32); eoRng a(s), b(s); int n = P("n", 700);
    for (int i = 0; i < n; i++) vf_assert(a.rand() == b.rand(), "equal seeds give equal words");
    vf_cover("done");
}
ENTRY(reseeding) {
    uint32_t s = (uint32_t)vf_sym("seed", 32), t = (uint32_t)vf_sym("other", 32); int n = P("n", 700), k = vfPick("used", 0, 2) * 313;
    eoRng a(s), b(t); for (int i = 0; i < k; i++) b.rand(); b.reseed(s);
    for (int i = 0; i < n; i++) vf_assert(a.rand() == b.rand(), "reseeding restarts the sequence");
    vf_cover("done");
}
