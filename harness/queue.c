//@ prop C26
//@ srcs
//@ default flags="--max-field-sensitivity-array-size 256 --object-bits 14"
//@ job name=fixed for=C:1..6/1..16 bound="every queue state of C slots (every read and write position, any content), then any operation" D=C={C} unwind=18
//@ job name=dyn for=C:1..6/1..16 bound="the same for the dynamically sized queue" D=C={C},DYN=1 entry=h_fixed unwind=18
//@ job name=big bound="every capacity up to 2^32-1 and every position: empty, full and length" D=C=2 unwind=3
#include "vh.h"
#include <string.h>
#include <stdlib.h>
#include "utils/new.h"
#include "fast/queue.h"
#ifdef VH_CBMC
#define NOFAIL(p) __CPROVER_assume((p) != 0)
#else
#define NOFAIL(p) ((void)(p))
#endif
#ifdef DYN
FQ_DYN_TYPEDEF(qt, uint64_t)
#else
FQ_TYPEDEF(qt, uint64_t, C);
#endif
typedef struct { unsigned n; uint64_t a[C + 1]; } ref;

static void inv(qt *q, ref *r)
{
    CHECK(FQ_SIZE(q) == r->n, "the length is the number of elements held");
    CHECK(!!FQ_EMPTY_P(q) == (r->n == 0), "empty exactly when it holds none");
    CHECK(!!FQ_FULL_P(q) == (r->n == C - 1), "full exactly when it holds its capacity");
    CHECK(q->q.rd < C && q->q.wr < C && q->q.sz == C, "positions stay inside the queue");
    for (unsigned i = 0; i < C; i++) if (i < r->n) CHECK(q->elem[(q->q.rd + i) % C] == r->a[i], "elements are held in order");
}
static void op(unsigned c, unsigned rd, unsigned n)
{
    qt q; ref r; uint64_t x = nd_u64();
#ifdef DYN
    FQ_DYN_INIT(&q, C); NOFAIL(q.elem);
#else
    FQ_INIT(&q, C);
#endif
    r.n = 0; inv(&q, &r);
    q.q.rd = rd; q.q.wr = (rd + n) % C; r.n = n;
    for (unsigned i = 0; i < C; i++) { uint64_t e = nd_u64(); q.elem[(rd + i) % C] = e; r.a[i] = e; }
    inv(&q, &r);
    if (c == 0) {
        int ok = FQ_ENQ(&q, x);
        CHECK(ok == (n < C - 1), "an enqueue fails exactly when the queue is full");
        if (n < C - 1) r.a[r.n++] = x;
    } else if (c == 1) {
        uint64_t y = x; int ok = FQ_DEQ(&q, y);
        CHECK(ok == (n > 0), "a dequeue fails exactly when the queue is empty");
        CHECK(y == (n ? r.a[0] : x), "the oldest element comes out");
        if (n) { for (unsigned i = 1; i < n; i++) r.a[i-1] = r.a[i]; r.n--; }
    } else { FQ_RESET(&q); r.n = 0; }
    inv(&q, &r);
#ifdef DYN
    FQ_DYN_FINI(&q);
    CHECK(q.elem == 0, "a finished queue has no storage");
#else
    FQ_FINI(&q);
#endif
    REACH("op");
}
void h_fixed(void)
{
    unsigned c = nd_u8(), rd = nd_u8(), n = nd_u8();
    for (unsigned i = 0; i < 3; i++) if (c == i)
        for (unsigned j = 0; j < C; j++) if (rd == j)
            for (unsigned k = 0; k < C; k++) if (n == k) op(i, j, k);
}
void h_big(void)
{
    __fast_queue q; q.sz = nd_u32(); q.rd = nd_u32(); q.wr = nd_u32();
    ASSUME(q.sz > 0 && q.rd < q.sz && q.wr < q.sz);
    uint64_t n = ((uint64_t)q.wr + q.sz - q.rd) % q.sz;
    CHECK(__q_size(&q) == n, "the length is the number of elements held");
    CHECK(!!__q_empty_p(&q) == (n == 0) && !!__q_full_p(&q) == (n == q.sz - 1), "empty and full are exact");
    REACH("big");
}
