//@ prop C27
//@ srcs
//@ default unwind=8 inc=inc_atomic flags="--object-bits 12"
//@ job name=enq for=N:2..5/2..9 D=N={N} unwind=14 bound="capacity {N}: an enqueue from every state, the consumer taking any number of elements between any two of its atomic steps"
//@ job name=deq w=20 for=N:2..4/2..6 D=N={N} unwind=14 bound="capacity {N}: a dequeue from every state, the producer adding any number of elements between any two of its atomic steps"
//@ job name=query for=N:2..5/2..9 D=N={N} unwind=14 bound="capacity {N}: size, full and empty in every state; reset; initialisation"
#include "vh.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "fast/spsc_bounded_queue.h"

struct el { uint32_t a, b; };           /* two words: a torn element shows */
SPSCQ_TYPEDEF(queue, struct el, N);
static queue Q;
static struct el Snap[N];               /* the contents as the protocol has them */
static int Role;                        /* 0: nobody else, 1: the other side consumes, 2: it produces */
static unsigned Stores, Looked, Full, Empty; static struct el Mine, First; static uint64_t Old; static int Seen;

static unsigned used(void) { return (unsigned)((Q.q.wr + N - Q.q.rd) % N); }
static int held(unsigned i) { return (i + N - Q.q.rd) % N < used(); }
static int same(struct el x, struct el y) { return x.a == y.a && x.b == y.b; }

/* what this side did to the elements since the last look must be its right */
static void audit(void)
{
    for (unsigned i = 0; i < N; i++) if (!same(Q.elem[i], Snap[i])) {
        CHECK(Role == 1, "a dequeue changes no element");
        CHECK(!held(i), "no element in the queue is overwritten");
        Snap[i] = Q.elem[i];
    }
}
static void others(void)
{
    if (Role == 1) { unsigned k = nd_small(0, N - 1); ASSUME(k <= used()); Q.q.rd = (Q.q.rd + k) % N; }
    if (Role == 2)
        for (unsigned k = 0; k < N - 1; k++) if (nd_bool() && used() < N - 1) {
            struct el e; e.a = nd_u32(); e.b = nd_u32();
            Q.elem[Q.q.wr] = Snap[Q.q.wr] = e; Q.q.wr = (Q.q.wr + 1) % N;
        }
}
void vh_before(volatile void *p, int op, int order, uint64_t v)
{
    if (!Role) return;
    audit(); others();
    volatile void *own = Role == 1 ? &Q.q.wr : &Q.q.rd, *other = Role == 1 ? &Q.q.rd : &Q.q.wr;
    if (op == VH_LOAD) {
        if (p == other) {
            CHECK(VH_ACQ(order), "the other side's index is read with acquire order");
            Looked++;
            if (used() == N - 1) Full = 1;
            if (used() == 0) Empty = 1;
            else if (!Seen) { Seen = 1; First = Q.elem[Q.q.rd]; }
        } else CHECK(p == own, "only the indices are synchronised on");
        return;
    }
    CHECK(op == VH_STORE && p == own, "each side writes its own index only");
    CHECK(VH_REL(order), "the index is published with release order");
    CHECK(v == (Old + 1) % N, "the index moves by one slot");
    if (Role == 1) {
        CHECK(used() < N - 1, "nothing is added to a full queue");
        CHECK(same(Q.elem[Old], Mine), "the element is complete before it is published");
    } else CHECK(used() > 0, "nothing is taken from an empty queue");
    Stores++;
}
void vh_after(volatile void *p, int op, int order, int done) { (void)p; (void)order; (void)done; if (Role && op == VH_STORE) others(); }

static void any(void)
{
    SPSCQ_INIT(&Q, N);
    CHECK(Q.q.rd == Q.q.wr, "a new queue is empty");
    Q.q.rd = nd_small(0, N - 1); Q.q.wr = nd_small(0, N - 1);
    for (unsigned i = 0; i < N; i++) { Q.elem[i].a = nd_u32(); Q.elem[i].b = nd_u32(); Snap[i] = Q.elem[i]; }
}
void h_enq(void)
{
    any();
    Mine.a = nd_u32(); Mine.b = nd_u32(); Old = Q.q.wr; Role = 1;
    int r = SPSCQ_ENQ(&Q, Mine);
    audit();
    CHECK(r == 1 || r == 0, "it says whether it succeeded");
    CHECK((unsigned)r == Stores, "it succeeds exactly if the element was added, once");
    if (!r) CHECK(Full, "it fails only when the queue is full");
    if (r) REACH("added"); else REACH("full");
}
void h_deq(void)
{
    struct el e = { 1, 2 }, e0 = e;
    any();
    Old = Q.q.rd; if (used()) { Seen = 1; First = Q.elem[Q.q.rd]; }
    Role = 2;
    int r = SPSCQ_DEQ(&Q, e);
    audit();
    CHECK((unsigned)r == Stores, "it succeeds exactly if an element was removed, once");
    if (r) CHECK(same(e, First), "the oldest element comes out, whole");
    else { CHECK(Empty, "it fails only when the queue is empty"); CHECK(same(e, e0), "a failing dequeue leaves the caller's element"); }
    if (r) REACH("taken"); else REACH("empty");
}
void h_query(void)
{
    any();
    unsigned u = used();
    CHECK(SPSCQ_SIZE(&Q) == u, "the size");
    CHECK(!!SPSCQ_FULL_P(&Q) == (u == N - 1), "full");
    CHECK(!!SPSCQ_EMPTY_P(&Q) == (u == 0), "empty");
    SPSCQ_RESET(&Q);
    CHECK(SPSCQ_EMPTY_P(&Q) && SPSCQ_SIZE(&Q) == 0 && Q.q.sz == N, "reset empties it");
    REACH("end");
}
