//@ prop C25
//@ srcs
//@ default flags="--max-field-sensitivity-array-size 256 --object-bits 14"
//@ job name=ops for=W:1..3/1..6 bound="every bit vector of W words with any content, then every single operation with every index, tested at every index; merges with every other vector" D=W={W} unwind=9
//@ job name=size for=B:0,1,63,64,65,127,128,129,192 bound="vectors for B bits: every index below B can be set, all start clear" D=B={B} unwind=9
//@ job name=pack for=B:2,64 bound="two vectors of B bits allocated on the stack, duplicated and copied" D=B={B} unwind=9
#include "vh.h"
#include <string.h>
#include <stdlib.h>
#include <alloca.h>
#include "utils/utils.h"
#include "fast/bitset.h"
#ifdef VH_CBMC
#define NOFAIL(p) __CPROVER_assume((p) != 0)
#else
#define NOFAIL(p) ((void)(p))
#endif

#ifdef W
static bitset *mk(uint64_t *r)
{
    bitset *b = malloc(sizeof *b + 8 * W); NOFAIL(b);
    b->n = W;
    for (int i = 0; i < W; i++) b->w[i] = r[i] = nd_u64();
    return b;
}
static int in(const uint64_t *r, size_t i) { return (int)(r[i >> 6] >> (i & 63) & 1); }
static void op(int c)
{
    uint64_t r[W], s[W]; bitset *a = mk(r), *b = mk(s), *d = 0;
    size_t i = nd_range(0, 64 * W - 1), j = nd_range(0, 64 * W - 1);
    int x = in(r, j), y = in(s, j), want = x;
    switch (c) {
    case 0: bitset_set(a, i); if (i == j) want = 1; break;
    case 1: bitset_clr(a, i); if (i == j) want = 0; break;
    case 2: bitset_or(a, b); want = x | y; break;
    case 3: bitset_and(a, b); want = x & y; break;
    case 4: bitset_xor(a, b); want = x ^ y; break;
    case 5: bitset_andnot(a, b); want = x & !y; break;
    case 6: bitset_not(a); want = !x; break;
    case 7: bitset_copy(a, b); want = y; break;
    case 8: d = bitset_dup(a); CHECK(d && d != a && d->n == W && bitset_isset(d, j) == x, "a duplicate has the same content");
            bitset_set(d, i); CHECK(bitset_isset(a, j) == x, "a duplicate is separate"); bitset_del(d); break;
    default: { bitset *e = bitset_dup_alloca(a); CHECK(e->n == W && bitset_isset(e, j) == x, "a stack duplicate has the same content"); bitset_set(e, i); break; }
    }
    CHECK(bitset_isset(a, j) == want && bitset_value(a, j) == want, "the set is what the operation says");
    CHECK(bitset_isset(b, j) == y, "the other operand keeps its content");
    CHECK(a->n == W && b->n == W, "sizes are kept");
    bitset_del(a); bitset_del(b);
    REACH("op");
}
void h_ops(void)
{
    unsigned c = nd_u8();
    for (int k = 0; k < 10; k++) if (c == (unsigned)k) op(k);
}
#endif
#ifdef B
void h_size(void)
{
    bitset *b = bitset_new(B); NOFAIL(b);
    CHECK(b->n == (B + 63) / 64, "the vector has the words its bits need");
#if B
    size_t i = nd_range(0, B - 1), j = nd_range(0, B - 1), k = nd_range(0, B - 1);
    CHECK(!bitset_isset(b, i), "a new vector is empty");
    bitset_set(b, i); bitset_set(b, j); bitset_clr(b, i);
    CHECK(bitset_isset(b, k) == (k == j && i != j), "set and clear act on one index");
#endif
    bitset_del(b);
    REACH("size");
}
void h_pack(void)
{
    bitset *a = bitset_alloca(B), *b = bitset_alloca((size_t)B + 64);
    CHECK(a->n == (B + 63) / 64 && b->n == (B + 127) / 64, "a stack vector has the words its bits need");
    size_t i = nd_range(0, B - 1), j = nd_range(0, B - 1);
    CHECK(!bitset_isset(a, i) && !bitset_isset(b, i + 64), "a new stack vector is empty");
    bitset_set(a, i); bitset_set(b, i + 64);
    CHECK(bitset_isset(a, j) == (i == j) && bitset_isset(b, j + 64) == (i == j), "stack vectors are separate sets");
    REACH("stack");
}
#endif
