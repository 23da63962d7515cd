//@ prop C28
//@ srcs
//@ default unwind=10 inc=inc_atomic flags="--object-bits 12"
//@ job name=enq for=N:1,2,4 unwindset=h_enq.0:4 unwind=6 D=N={N},NB={N} bound="{N} slots: an enqueue in every state (the first 256 positions), other threads doing anything between any two of its atomic steps; one lost race"
//@ job name=deq for=N:1,2,4 unwindset=h_deq.0:4 unwind=6 D=N={N},NB={N} bound="{N} slots: a dequeue in every state (the first 256 positions), other threads doing anything between any two of its atomic steps; one lost race"
//@ job name=enqw for=N:1,2,4 unwind=6 D=N={N},NB={N},WAITS bound="{N} slots: a waiting enqueue in every state (the first 256 positions) among waiting threads; three turns of the wait"
//@ job name=deqw for=N:1,2,4 unwind=6 D=N={N},NB={N},WAITS bound="{N} slots: a waiting dequeue in every state (the first 256 positions) among waiting threads; three turns of the wait"
//@ job name=query for=N:1..5/1..9 D=N={N},NB=0 bound="room for {N}: creation, size, full, empty, capacity, reset in every quiet state"
#include "vh.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <assert.h>
static int vh_memalign(void **p, size_t a, size_t n);
#define posix_memalign vh_memalign
#include "fast/mpmc_bounded_queue.h"
static int vh_memalign(void **p, size_t a, size_t n) { (void)a; *p = malloc(n); return *p ? 0 : 12; }

struct el { uint32_t a, b; };
MPMC_QUEUE_TYPE(queue, struct el);
#define POS() (BASE + nd_u8())         /* any of 256 positions from there on */
#ifndef BASE
#define BASE 0
#endif
#ifndef LOADS
#define LOADS 4
#endif
#define LAPS ((uint64_t)1 << 60)
static int same(struct el x, struct el y) { return x.a == y.a && x.b == y.b; }

#if NB
static queue Q; static queue__slot S[N]; static struct el Snap[N];
static int Role;                        /* 1: we enqueue, 2: we dequeue */
static int Mine = -1; static uint64_t Pos, Turn; static struct el El, Got;
static unsigned Claims, Stores, Blocked, Loads;

static uint64_t lap(unsigned i) { return S[i].turn / 2; }
static uint64_t pos(unsigned i) { return lap(i) * N + i; }
/* the slot's history, the claims and the counters agree */
static int valid(void)
{
    uint64_t h = Q.q.head, t = Q.q.tail; int ok = 1;
    for (unsigned i = 0; i < N; i++) {
        uint64_t p = pos(i);
        if (S[i].turn & 1) ok &= h > p && t + N > p;                /* p has been added; p - N was taken */
        else ok &= h + N > p && t + N > p;                          /* p is to be added here next */
#ifndef WAITS
        if (S[i].turn & 1) ok &= h <= p + N && t <= p + N;          /* nobody claims a slot that is not ready */
        else ok &= h <= p + N && t <= p;
#else
        ok &= h <= p + 4 * N && t <= p + 4 * N;
#endif
    }
#ifndef WAITS
    ok &= t <= h;
#endif
    return ok;
}
static void audit(void)
{
    for (unsigned i = 0; i < N; i++) if (!same(S[i].data, Snap[i])) {
        CHECK(Role == 1 && (int)i == Mine, "an element is written only in the slot that was claimed");
        Snap[i] = S[i].data;
    }
}
/* every other thread does whatever it can: counters and turns move on, elements
 * change in slots that are written in between, what we claimed stays ours */
static void others(void)
{
    uint64_t h = Q.q.head, t = Q.q.tail, u[N];
    for (unsigned i = 0; i < N; i++) u[i] = S[i].turn;
    uint64_t dh = nd_small(0, 3 * N), dt = nd_small(0, 3 * N);
    Q.q.head = h + dh; Q.q.tail = t + dt;
    for (unsigned i = 0; i < N; i++) {
        uint64_t d = nd_small(0, 6); struct el e; e.a = nd_u32(); e.b = nd_u32();
        if ((int)i == Mine) {
            if (d > Turn - u[i] || u[i] > Turn) d = 0;              /* ours from its turn on */
        }
        /* something was written if an odd turn was passed or reached */
        if (d > 1 || (d == 1 && !(u[i] & 1))) { S[i].data = e; Snap[i] = e; }
        S[i].turn = u[i] + d;
    }
    ASSUME(Q.q.head < LAPS && Q.q.tail < LAPS); ASSUME(valid());
}
void vh_before(volatile void *p, int op, int order, uint64_t v)
{
    if (!Role) return;
    audit(); others();
    volatile void *own = Role == 1 ? &Q.q.head : &Q.q.tail;
    if (op == VH_LOAD) {
        ASSUME(Loads++ < LOADS);
        if (p == own) return;
        unsigned i; for (i = 0; i < N; i++) if (p == &S[i].turn) break;
        CHECK(i < N, "only the counters and turns are synchronised on");
        CHECK(VH_ACQ(order), "a turn is read with acquire order");
        uint64_t c = Role == 1 ? Q.q.head : Q.q.tail;
        if (S[c % N].turn != c / N * 2 + (Role == 2)) Blocked = 1;  /* full, or empty */
        if (Mine >= 0 && (int)i == Mine && S[i].turn == Turn && Role == 2) Got = S[i].data;
    } else if (op == VH_CAS || op == VH_ADD) {
        CHECK(p == own, "only one's own counter is advanced");
        if (op == VH_ADD) CHECK(v == 1, "by one");
    } else {
        CHECK(Mine >= 0 && p == &S[Mine].turn, "the turn of the claimed slot is published");
        CHECK(S[Mine].turn == Turn && v == Turn + 1, "from its turn to the next");
        CHECK(VH_REL(order), "a turn is published with release order");
        if (Role == 1) CHECK(same(S[Mine].data, El), "the element is complete before it is published");
        Stores++; Mine = -1;
    }
}
void vh_after(volatile void *p, int op, int order, int done)
{
    (void)p; (void)order;
    if (!Role) return;
    if ((op == VH_CAS && done) || op == VH_ADD) {
        uint64_t c = Role == 1 ? Q.q.head : Q.q.tail;
        Pos = c - 1; Claims++; Mine = Pos % N; Turn = Pos / N * 2 + (Role == 2);
        if (op == VH_CAS) { CHECK(S[Mine].turn == Turn, "a slot is claimed when its turn has come"); Got = S[Mine].data; CHECK(valid(), "the claim leaves the queue consistent"); }
    }
    if (op == VH_STORE) { CHECK(valid(), "the queue stays consistent"); others(); }
}
static void any(void)
{
    __mpmc_q_init(&Q.q, N); Q.slot = S;
    Q.q.head = POS(); Q.q.tail = POS();
    for (unsigned i = 0; i < N; i++) { S[i].turn = POS(); S[i].data.a = nd_u32(); S[i].data.b = nd_u32(); Snap[i] = S[i].data; }
    ASSUME(Q.q.head < LAPS && Q.q.tail < LAPS); ASSUME(valid());
    El.a = nd_u32(); El.b = nd_u32();
}
void h_enq(void)
{
    any(); Role = 1;
    int r = MPMC_QUEUE_ENQ(&Q, El);
    audit();
    CHECK(Claims == (unsigned)r && Stores == (unsigned)r, "it succeeds exactly if one slot was claimed and published");
    if (!r) CHECK(Blocked, "it fails only when the queue is full");
    if (r) REACH("added"); else REACH("full");
}
void h_deq(void)
{
    struct el e = { 1, 2 }, e0 = e;
    any(); Role = 2;
    int r = MPMC_QUEUE_DEQ(&Q, e);
    audit();
    CHECK(Claims == (unsigned)r && Stores == (unsigned)r, "it succeeds exactly if one slot was claimed and released");
    if (r) CHECK(same(e, Got), "the element of the claimed slot comes out, whole");
    else { CHECK(Blocked, "it fails only when the queue is empty"); CHECK(same(e, e0), "a failing dequeue leaves the caller's element"); }
    if (r) REACH("taken"); else REACH("empty");
}
#ifdef WAITS
void h_enqw(void)
{
    any(); Role = 1;
    MPMC_QUEUE_ENQ_WAIT(&Q, El);
    audit();
    CHECK(Claims == 1 && Stores == 1, "one slot is claimed and published");
    REACH("added");
}
void h_deqw(void)
{
    struct el e = { 1, 2 };
    any(); Role = 2;
    MPMC_QUEUE_DEQ_WAIT(&Q, e);
    audit();
    CHECK(Claims == 1 && Stores == 1, "one slot is claimed and released");
    CHECK(same(e, Got), "the element of the claimed slot comes out, whole");
    REACH("taken");
}
#endif
#else
void vh_before(volatile void *p, int op, int order, uint64_t v) { (void)p; (void)op; (void)order; (void)v; }
void vh_after(volatile void *p, int op, int order, int done) { (void)p; (void)op; (void)order; (void)done; }
#endif

#if !NB
void h_query(void)
{
    unsigned cap = 1, i, k; struct el e;
    while (cap < N) cap *= 2;
    queue *q = MPMC_QUEUE_NEW(queue, N);
    CHECK(MPMC_QUEUE_CAP(q) == cap, "the capacity is the next power of two");
    CHECK(MPMC_QUEUE_EMPTY_P(q) && MPMC_QUEUE_SIZE(q) == 0, "a new queue is empty");
    /* a quiet state: t taken, n held */
    uint64_t t = nd_u64(); unsigned n = nd_small(0, cap);
    ASSUME(t < LAPS);
    q->q.tail = t; q->q.head = t + n;
    for (i = 0; i < cap; i++) {
        uint64_t p = t + ((i - t) & (cap - 1));         /* the first position from t on in this slot */
        q->slot[i].turn = p / cap * 2 + (p < t + n);
    }
    CHECK(MPMC_QUEUE_SIZE(q) == n, "the size");
    CHECK(!!MPMC_QUEUE_FULL_P(q) == (n == cap), "full");
    CHECK(!!MPMC_QUEUE_EMPTY_P(q) == (n == 0), "empty");
    e.a = nd_u32(); e.b = nd_u32();
    k = MPMC_QUEUE_ENQ(q, e);
    CHECK(k == (n < cap) && MPMC_QUEUE_SIZE(q) == n + k, "an enqueue succeeds when there is room");
    struct el f = e; k += n;
    unsigned d = MPMC_QUEUE_DEQ(q, f);
    CHECK(d == (k > 0) && MPMC_QUEUE_SIZE(q) == k - d, "a dequeue succeeds when there is an element");
    if (n == 0) CHECK(same(e, f), "it comes back");
    MPMC_QUEUE_RESET(q);
    CHECK(MPMC_QUEUE_EMPTY_P(q) && MPMC_QUEUE_SIZE(q) == 0 && MPMC_QUEUE_CAP(q) == cap, "reset empties it");
    for (i = 0; i < cap; i++) CHECK(MPMC_QUEUE_ENQ(q, e) == 1, "and all of it can be used");
    CHECK(MPMC_QUEUE_ENQ(q, e) == 0, "and no more");
    MPMC_QUEUE_DEL(q);
    CHECK(q == 0, "gone");
    REACH("end");
}
#endif
