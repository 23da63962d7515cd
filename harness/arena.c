//@ prop C20
//@ srcs src/arena.c
//@ default cc="-Dmalloc=vh_malloc -Dcalloc=vh_calloc -Dfree=vh_free" nomem=1
//@ job name=alloc for=N:1..3/1..4 bound="every sequence of N requests of any 64-bit size from an arena of any 64-bit chunk size, with the system allocator refusing any of its calls; then deletion" D=N={N} unwind=9
#include "vh.h"
#include <string.h>
#include <errno.h>
#include "utils/arena.h"

#define BLK  64
#define MAXB (N + 1)
/* The system allocator: block i is a header-sized object standing for a
 * block of sz[i] bytes; the arena never touches the memory it hands out. */
static struct { uint64_t sz; int live; } B[MAXB];
static int nb;
#ifdef VH_CBMC
static uint64_t m0[BLK / 8], m1[BLK / 8], m2[BLK / 8], m3[BLK / 8], m4[BLK / 8], m5[BLK / 8], m6[BLK / 8];
static void *const mem[7] = { m0, m1, m2, m3, m4, m5, m6 };
static int where(void *p, uint64_t *off)
{
    for (int i = 0; i < MAXB; i++)
        if (__CPROVER_same_object(p, mem[i])) { *off = __CPROVER_POINTER_OFFSET(p); return i; }
    return -1;
}
#else
#include <sys/mman.h>
/* each block has the address space to itself that it claims */
static void *mem[7];
static void map(void)
{
    for (int i = 0; i < 7; i++)
        mem[i] = mmap((void *)((1ull << 45) + (uint64_t)i * (1ull << 41)), 4096, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE, -1, 0);
}
static int where(void *p, uint64_t *off)
{
    for (int i = 0; i < MAXB; i++)
        if ((uint64_t)p - (uint64_t)mem[i] < (1ull << 41)) { *off = (uint64_t)p - (uint64_t)mem[i]; return i; }
    return -1;
}
#endif

void *vh_malloc(size_t n)
{
    if (n > ((uint64_t)1 << 40) || nd_bool()) return 0;
    CHECK(nb < MAXB, "no more than one block is obtained per request");
    ASSUME(nb < MAXB);
    CHECK(n >= 16, "the block has room for its header");
    B[nb].sz = n; B[nb].live = 1;
    return mem[nb++];
}
void *vh_calloc(size_t a, size_t b)
{
    void *p = vh_malloc(a * b);
    if (p) memset(p, 0, BLK);
    return p;
}
void vh_free(void *p)
{
    if (!p) return;
    int k = -1;
    for (int i = 0; i < MAXB; i++) if (p == mem[i]) k = i;
    CHECK(k >= 0 && k < nb && B[k].live, "only live blocks are freed, once");
    ASSUME(k >= 0 && k < MAXB);
    B[k].live = 0;
}

void h_alloc(void)
{
#ifndef VH_CBMC
    map();
#endif
    arena_t a = 0; uint64_t want[N], off[N]; int blk[N];
    size_t chunk = nd_size();
    CHECK(arena_new(0, chunk) == -EINVAL, "no place for the handle is refused");
    int rc = arena_new(&a, chunk);
    if (rc) { CHECK(rc == -ENOMEM && nb == 0, "only a failed allocation makes creation fail"); return; }
    CHECK(a != 0, "the handle is returned");
    CHECK(arena_alloc(0, 8) == 0, "no arena, no memory");
    for (int i = 0; i < N; i++) {
        size_t n = nd_size();
        int nb0 = nb;
        uint64_t o = 0;
        void *p = arena_alloc(a, n);
        want[i] = n; blk[i] = -1; off[i] = 0;
        if (!p) { CHECK(nb == nb0, "a failed request keeps nothing"); continue; }
        int b = where(p, &o);
        CHECK(b >= 0 && b < nb && B[b].live, "memory comes from a live block");
        ASSUME(b >= 0);
        CHECK((void *)a != mem[b], "memory is not the arena itself");
        CHECK(o % 8 == 0, "memory is aligned");
        CHECK(o >= 16, "memory is past the header of its block");
        CHECK(n <= B[b].sz && o <= B[b].sz - n, "the whole request fits its block");
        uint64_t *w = mem[b];             /* the caller scribbles over all of it */
        for (int k = 0; k < BLK / 8; k++) if (o <= 8 * k && 8 * k + 8 <= o + n) w[k] = ~0ull;
        blk[i] = b; off[i] = o;
        for (int j = 0; j < i; j++)
            if (blk[j] == b)
                CHECK(off[j] + want[j] <= o || o + n <= off[j], "memory handed out before is not handed out again");
        REACH("alloc");
    }
    arena_delete(a);
    for (int i = 0; i < MAXB; i++) CHECK(!B[i].live, "deletion frees every block");
    REACH("deleted");
}
