//@ prop C43
//@ srcs src/prng/frand.c
//@ default solver=cadical
//@ job name=frand bound="every value of the underlying generator, first and second draw"
#include "vh.h"
#include "utils/xorshift-rand.h"
extern double frand(void);

static uint64_t Next; static int Inits;
void xs128plus_init(xs128plus *s, uint64_t seed) { CHECK(seed == 0, "seeded from entropy"); s->v[0] = s->v[1] = 1; Inits++; }
uint64_t xs128plus_u64(xs128plus *s) { (void)s; return Next; }

void h_frand(void)
{
    for (int i = 0; i < 2; i++) {
        Next = nd_u64();
        double d = frand();
        CHECK(d >= 0.0 && d < 1.0, "the value lies in [0, 1)");
        double up = d * 4503599627370496.0;     /* 2^52, exact */
        CHECK((double)(Next & 0xfffffffffffffULL) == up, "it is the 52 low random bits over 2^52");
    }
    CHECK(Inits == 1, "seeded exactly once");
    REACH("end");
}
