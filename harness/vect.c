//@ prop C22
//@ srcs
//@ default flags="--max-field-sensitivity-array-size 256 --object-bits 14"
//@ job name=ops for=S:1..14 bound="every valid vector of capacity 1..4 and every length up to it with any content, then every single operation with any element; 8-byte elements" D=S={S},ET=uint64_t unwind=18
//@ job name=ops4 entry=h_ops for=S:1..14 bound="the same with 4-byte elements" D=S={S},ET=uint32_t unwind=18
//@ job name=two for=S:1..14 bound="the same vector with every other vector of length 0..5: copy, append, swap, sample with any random numbers" D=S={S},ET=uint64_t unwind=18
//@ job name=seq for=N:1..4/1..6 bound="a new vector of every initial capacity 0..3, every sequence of N pushes and pops at either end" D=N={N},S=1,ET=uint64_t unwind=18
#include "vh.h"
#include <string.h>
#include <stdlib.h>
#include <assert.h>
#include "fast/vect.h"
#ifdef VH_CBMC
#define NOFAIL(p) __CPROVER_assume((p) != 0)
#else
#define NOFAIL(p) ((void)(p))
#endif
#define MX 20
VECT_TYPEDEF(vec, ET);
typedef struct { size_t n; ET a[MX]; } ref;
/* S = 1..14 -> (capacity, length): (1,0) (1,1) (2,0..2) (3,0..3) (4,0..4) */
#define CAP (S <= 2 ? 1 : S <= 5 ? 2 : S <= 9 ? 3 : 4)
#define LEN (S <= 2 ? S - 1 : S <= 5 ? S - 3 : S <= 9 ? S - 6 : S - 10)

static ET any(void) { return (ET)nd_u64(); }
static void mk(vec *v, ref *r, size_t cap, size_t len)
{
    v->arr = malloc(cap * sizeof(ET)); NOFAIL(v->arr);
    v->cap = cap; v->size = r->n = len;
    for (size_t i = 0; i < len; i++) v->arr[i] = r->a[i] = any();
}
static void inv(vec *v, ref *r)
{
    CHECK(VECT_LEN(v) == r->n, "the length is the number of elements held");
    CHECK(VECT_CAPACITY(v) >= VECT_LEN(v), "the capacity covers the length");
    for (size_t i = 0; i < r->n; i++) CHECK(VECT_ELEM(v, i) == r->a[i], "the elements are those put in, in order");
    ET *p; size_t k = 0;
    VECT_FOR_EACH(v, p) { CHECK(k < r->n && *p == r->a[k], "iteration visits the elements in order"); k++; }
    CHECK(k == r->n, "iteration visits every element");
    if (v->cap) v->arr[v->cap - 1] = v->arr[v->cap - 1];       /* the storage covers the capacity */
}
static void push(ref *r, ET e) { r->a[r->n++] = e; }
static void pushf(ref *r, ET e) { for (size_t i = r->n; i > 0; i--) r->a[i] = r->a[i-1]; r->a[0] = e; r->n++; }
static ET popf(ref *r) { ET e = r->a[0]; for (size_t i = 1; i < r->n; i++) r->a[i-1] = r->a[i]; r->n--; return e; }
static int cmp(const void *a, const void *b) { ET x = *(const ET *)a, y = *(const ET *)b; return x < y ? -1 : x > y; }
static uint32_t rnd(void) { return nd_u32(); }

static void op(unsigned c, unsigned w)
{
    vec v; ref r; ET e = any();
    mk(&v, &r, CAP, LEN);
    switch (c) {
    case 0: VECT_PUSH_BACK(&v, e); push(&r, e); break;
    case 1: VECT_PUSH_FRONT(&v, e); pushf(&r, e); break;
    case 2: VECT_PUSH_FRONT(&v, 7); pushf(&r, 7); break;
#if LEN > 0
    case 3: { ET x = VECT_POP_BACK(&v); CHECK(x == r.a[--r.n], "the last element is popped"); break; }
    case 4: { ET x = VECT_POP_FRONT(&v); CHECK(x == popf(&r), "the first element is popped"); break; }
    case 5: CHECK(VECT_FIRST_ELEM(&v) == r.a[0] && VECT_LAST_ELEM(&v) == r.a[r.n-1] && VECT_TOP(&v) == r.a[r.n-1], "first and last are the ends"); break;
    case 6: VECT_POP(&v); r.n--; break;
    case 7: { ET x = VECT_RAND_ELEM(&v, rnd); int f = 0; for (size_t i = 0; i < r.n; i++) f |= x == r.a[i]; CHECK(f, "a random element is an element"); break; }
    case 8: VECT_PUSH_BACK(&v, v.arr[0]); push(&r, r.a[0]); break;
#endif
    case 9: VECT_RESERVE(&v, w); CHECK(v.cap >= w, "the asked capacity is reserved"); break;
    case 10: VECT_ENSURE(&v, w); CHECK(v.cap >= w + r.n, "the asked extra capacity is reserved");
             for (size_t i = 0; i < w; i++) { ET x = any(); VECT_GET_NEXT(&v) = x; push(&r, x); } break;
    case 11: VECT_RESET(&v); r.n = 0; VECT_PUSH_BACK(&v, e); push(&r, e); break;
#if LEN <= 3
    case 12: { /* a shuffle permutes: any one value occurs as often as before */
        VECT_SHUFFLE(&v, rnd); size_t n0 = 0, n1 = 0;
        for (size_t i = 0; i < r.n; i++) { n0 += r.a[i] == e; n1 += v.arr[i] == e; r.a[i] = v.arr[i]; }
        CHECK(n0 == n1, "a shuffle keeps the elements"); break; }
#endif
    case 13: { vec w_; VECT_INIT_FROM(&w_, &v); inv(&w_, &r); VECT_PUSH_BACK(&w_, e); inv(&v, &r);
               push(&r, e); inv(&w_, &r); r.n--; VECT_FINI(&w_); break; }
    case 14: { int i = 0; ET *p; VECT_FOR_EACHi(&v, i, p) CHECK(*p == r.a[i], "indexed iteration agrees"); CHECK((size_t)i == r.n, "indexed iteration visits all"); break; }
    case 15: VECT_APPEND_VECT(&v, &v); for (size_t i = 0, n = r.n; i < n; i++) push(&r, r.a[i]); break;
    case 17: VECT_FINI(&v); CHECK(v.arr == 0 && v.size == 0 && v.cap == 0, "a finished vector is empty"); REACH("fini"); return;
    default: return;
    }
    inv(&v, &r);
    VECT_FINI(&v);
    REACH("op");
}
void h_ops(void)
{
    unsigned c = nd_u8(), w = nd_u8();
    for (unsigned i = 0; i < 18; i++)
        if (c == i) {
            if (i == 9 || i == 10) { for (unsigned k = 0; k < 10; k++) if (w == k) op(i, k); }
            else op(i, 0);
        }
}
static void pair(unsigned c, size_t len)
{
    vec v, w; ref r, s;
    mk(&v, &r, CAP, LEN); mk(&w, &s, len ? len : 1, len);
    switch (c) {
    case 0: VECT_COPY(&v, &w); r = s; break;
    case 1: VECT_APPEND_VECT(&v, &w); for (size_t i = 0; i < len; i++) push(&r, s.a[i]); break;
    case 2: VECT_SWAP(&v, &w); inv(&v, &s); inv(&w, &r); VECT_FINI(&v); VECT_FINI(&w); return;
    default: {
        size_t k = c - 3;                            /* 0..5 */
        ET e = any();
        int ok = VECT_SAMPLE(&v, &w, k, rnd);
        CHECK(ok == (k < len), "a sample needs more elements than it takes");
        if (ok) {
            CHECK(v.size == k && v.cap >= k, "the sample has the asked size");
            size_t n0 = 0, n1 = 0;
            for (size_t i = 0; i < len; i++) n0 += s.a[i] == e;
            for (size_t i = 0; i < k; i++) n1 += v.arr[i] == e;
            CHECK(n1 <= n0, "a sample takes each element at most once");
            for (size_t i = 0; i < k; i++) r.a[i] = v.arr[i];
            r.n = k;
            REACH("sample");
        }
        break; }
    }
    inv(&v, &r); inv(&w, &s);
    VECT_FINI(&v); VECT_FINI(&w);
    REACH("pair");
}
void h_two(void)
{
    unsigned c = nd_u8(), l = nd_u8();
    for (unsigned i = 0; i < 8; i++) if (c == i)
        for (unsigned k = 0; k < 6; k++) if (l == k) pair(i, k);
}
#ifdef N
static vec V; static ref R;
static void step(int d)
{
    inv(&V, &R);
    if (d == N) { VECT_FINI(&V); REACH("done"); return; }
    unsigned c = nd_u8(); ET e = any();
    if (c == 0) { VECT_PUSH_BACK(&V, e); push(&R, e); step(d + 1); }
    else if (c == 1) { VECT_PUSH_FRONT(&V, e); pushf(&R, e); step(d + 1); }
    else if (c == 2 && R.n) { ET x = VECT_POP_BACK(&V); CHECK(x == R.a[--R.n], "the last element is popped"); step(d + 1); }
    else if (c == 3 && R.n) { ET x = VECT_POP_FRONT(&V); CHECK(x == popf(&R), "the first element is popped"); step(d + 1); }
}
static void from(size_t n)
{
    VECT_INIT(&V, n); R.n = 0;
    CHECK(V.cap >= n && V.cap > 0, "the initial capacity is what was asked");
    step(0);
}
void h_seq(void)
{
    unsigned c = nd_u8();
    if (c == 0) from(0); else if (c == 1) from(1); else if (c == 2) from(2); else if (c == 3) from(3);
}
#endif
