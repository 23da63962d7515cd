//@ prop C21
//@ srcs src/mempool.c
//@ default flags="--max-field-sensitivity-array-size 400 --object-bits 14"
//@ job name=ops subst="#define\s+_Align\(typ, p\).*@@#define _Align(typ, p) _Generic((typ)0, uint8_t *: (uint8_t *)(p) + (-__CPROVER_POINTER_OFFSET((const void *)(p)) & (MINALIGNMENT-1)), default: (typ)((_PTRVAL(p)+MINALIGNMENT-1) & ~(MINALIGNMENT-1)))" for=N:3..4/3..5 bound="every sequence of N allocations and frees on a pool of 24-byte blocks, unlimited and growing one, or two blocks at a time, and the backing allocator refusing any call" D=N={N},MAXB=0 unwind=10
//@ job name=opsmax subst="#define\s+_Align\(typ, p\).*@@#define _Align(typ, p) _Generic((typ)0, uint8_t *: (uint8_t *)(p) + (-__CPROVER_POINTER_OFFSET((const void *)(p)) & (MINALIGNMENT-1)), default: (typ)((_PTRVAL(p)+MINALIGNMENT-1) & ~(MINALIGNMENT-1)))" entry=h_ops for=M:1..3 bound="every sequence of 4 allocations and frees on a pool limited to M blocks" D=N=4,MAXB={M} unwind=10
//@ job name=zone subst="#define\s+_Align\(typ, p\).*@@#define _Align(typ, p) _Generic((typ)0, uint8_t *: (uint8_t *)(p) + (-__CPROVER_POINTER_OFFSET((const void *)(p)) & (MINALIGNMENT-1)), default: (typ)((_PTRVAL(p)+MINALIGNMENT-1) & ~(MINALIGNMENT-1)))" for=Z:0..3,40,71..74,96,120,144/0..6,32,40..48,64..168 bound="a pool carved out of caller memory of Z bytes at every misalignment, block size 1..40, every allocation it can do" D=Z={Z} unwind=10
//@ job name=zonenew subst="#define\s+_Align\(typ, p\).*@@#define _Align(typ, p) _Generic((typ)0, uint8_t *: (uint8_t *)(p) + (-__CPROVER_POINTER_OFFSET((const void *)(p)) & (MINALIGNMENT-1)), default: (typ)((_PTRVAL(p)+MINALIGNMENT-1) & ~(MINALIGNMENT-1)))" entry=h_zone for=Z:0..3,40,80,120,160,200/0..6,32,40..48,64..240 bound="the same with the pool state inside that memory" D=Z={Z},NEW=1 unwind=10
//@ job name=create timeout=400 bound="every 32-bit limit and granularity with blocks of 40 bytes and every 32-bit block size with a limit of 3 blocks, the backing allocator refusing any call" unwind=8 D=X=1
//@ job name=align bound="one block from a chunk at every misalignment" unwind=8 D=X=1
#include "vh.h"
#include <string.h>
#include <errno.h>
#include "utils/mempool.h"

#define NB 6
#define BS 24
#define CW 16                    /* 64-bit words of a chunk */
static void *pool[NB * CW];
#define C(i) ((void *)&pool[(i) * CW])
static int nc, live[NB]; static uint64_t csz[NB]; static int ctx, anysize, refuse, refuseat; static unsigned off;
static void *xalloc(void *x, size_t n)
{
    CHECK(x == &ctx, "the allocator gets its context");
    if (refuse || nc >= NB || (refuseat && --refuseat == 0)) return 0;
    if (!anysize) { CHECK(n <= CW * 8, "a chunk is as large as its blocks need"); ASSUME(n <= CW * 8); }
    csz[nc] = n; live[nc] = 1;
    return (char *)C(nc++) + off;
}
static void xfree(void *x, void *p)
{
    CHECK(x == &ctx, "the allocator gets its context");
    int k = -1;
    for (int i = 0; i < NB; i++) if (p == C(i)) k = i;
    CHECK(k >= 0 && k < nc && live[k], "only live chunks are released, once");
    ASSUME(k >= 0 && k < NB);
    live[k] = 0;
}
static const memmgr mm = { .alloc = xalloc, .free = xfree, .context = &ctx };

#ifdef N
static mempool st;
static unsigned avail, units;
static unsigned char *blk[N + 1]; static uint64_t tag[N + 1]; static int n;

static void content(int i)
{
    uint64_t *w = (uint64_t *)blk[i];
    CHECK(w[0] == tag[i] && w[1] == ~tag[i] && w[2] == tag[i], "a block keeps its content while it is in use");
}
static void doalloc(int rf)
{
    int nc0 = nc; refuse = rf;
    unsigned char *q = mempool_alloc(&st);
    refuse = 0;
    if (!avail) {
        if (rf || MAXB) {
            CHECK(nc == nc0, "a failed request keeps no chunk");
            CHECK(!q, "a limited pool hands out no more than its blocks");
            REACH("full");
            return;
        }
        CHECK(nc == nc0 + 1, "a chunk is obtained when there is no block"); nc = nc0 + 1;
        avail = units;
    } else { CHECK(nc == nc0, "no chunk is obtained while there are blocks"); nc = nc0; }
    CHECK(q != 0, "a pool hands out all its blocks");
    ASSUME(q != 0);
    avail--;
    int ok = 0; uint64_t o = (uint64_t)(q - (unsigned char *)pool);
    for (int i = 0; i < NB; i++)
        if (i < nc && o >= i * CW * 8 && o + BS <= i * CW * 8 + csz[i] && o % 8 == 0) ok = 1;
    CHECK(ok, "an aligned block inside a live chunk is handed out");
    ASSUME(ok);
    q = (unsigned char *)pool + o;
    uint64_t *w = (uint64_t *)q, t = nd_u64();
    w[0] = t; w[1] = ~t; w[2] = t;
    blk[n] = q; tag[n] = t; n++;
    REACH("alloc");
}
static void dofree(int k)
{
    content(k);
    mempool_free(&st, blk[k]);
    for (int i = k; i < n - 1; i++) { blk[i] = blk[i+1]; tag[i] = tag[i+1]; }
    n--; avail++;
    REACH("free");
}
static void done(void)
{
    for (int i = 0; i < n; i++) content(i);
    mempool_fini(&st);
    for (int i = 0; i < NB; i++) CHECK(!live[i], "finalisation releases every chunk");
}
/* every way to go on from a concrete state: no merging of states between
 * operations, so that each call sees concrete pointers and symbolic data */
static void step(int d)
{
    if (d == N) { done(); return; }
    unsigned c = nd_u8();
    if (c == 0) { doalloc(0); step(d + 1); }
    else if (c == 1) { doalloc(1); step(d + 1); }
    else if (c == 2 && n > 0) { dofree(0); step(d + 1); }
    else if (c == 3 && n > 1) { dofree(1); step(d + 1); }
    else if (c == 4 && n > 2) { dofree(2); step(d + 1); }
    else if (c == 5 && n > 3) { dofree(3); step(d + 1); }
}
static void run(unsigned u)
{
    units = avail = MAXB ? MAXB : u;
    unsigned bs = 17;
    int rc = mempool_init(&st, &mm, bs, MAXB, u);
    CHECK(rc == 0, "the pool is created");
    CHECK(mempool_block_size(&st) == BS, "the block size is rounded up to the alignment");
    CHECK(mempool_total_blocks(&st) == MAXB, "the limit is reported");
    step(0);
}
void h_ops(void)
{
#if MAXB
    run(1);
#else
    if (nd_bool()) run(1); else run(2);
#endif
}
#endif

#ifdef Z
#define MAXN 8
static void zone(unsigned mis, unsigned bs)
{
    static mempool st;
#ifdef NEW      /* typed like the pool state where the state is placed */
    static struct { void *pre[1]; mempool a; void *rest[(Z + 7) / 8 + 4]; } M1;
    static struct { void *pre[2]; mempool a; void *rest[(Z + 7) / 8 + 4]; } M2;
    void *mem = mis ? (void *)&M2 : (void *)&M1; memset(&M1, 0x5a, sizeof M1); memset(&M2, 0x5a, sizeof M2);
#else
    static void *mem[(Z + 7) / 8 + 4];
    memset(mem, 0x5a, sizeof mem);
#endif
    unsigned char *base = (unsigned char *)mem + 8 + mis; mempool *a = &st;
#ifdef NEW
    a = 0;
    int rc = mempool_new_from_mem(&a, bs, base, Z);
#else
    int rc = mempool_init_from_mem(a, bs, base, Z);
#endif
    unsigned rbs = bs < 16 ? 16 : (bs + 7) & ~7u;
#ifdef NEW
#define HDR (sizeof(mempool) + 24)
#else
#define HDR 24
#endif
    if (Z == 0) CHECK(rc == -EINVAL, "no memory, no pool");
    else if (Z < HDR + rbs) CHECK(rc == -ENOMEM, "memory that is too small is refused");
    else if (Z >= HDR + rbs + 16) CHECK(rc == 0, "memory that is large enough is accepted");
    if (rc) goto done;
    CHECK(mempool_block_size(a) == rbs, "the block size is rounded up");
    unsigned max = mempool_total_blocks(a), n = 0;
    unsigned char *p[MAXN];
    for (int i = 0; i < MAXN; i++) {
        unsigned char *q = mempool_alloc(a);
        if (!q) break;
        CHECK(q >= base && q + rbs <= base + Z, "the block is inside the caller's memory");
        CHECK((q - (unsigned char *)mem) % 8 == 0, "the block is aligned");
        for (int j = 0; j < MAXN; j++) if (j < i) CHECK(q >= p[j] + rbs || p[j] >= q + rbs, "blocks are distinct");
        p[i] = q; n++;
    }
    CHECK(n == max && n > 0, "the pool hands out as many blocks as it says");
    CHECK((n + 1) * rbs + HDR + 16 > Z, "no whole block is wasted");
    mempool_free(a, p[0]);
    CHECK(mempool_alloc(a) == p[0], "a returned block is handed out again");
    mempool_delete(a);
done:
    for (unsigned i = 0; i < 8 + mis; i++) CHECK(((unsigned char *)mem)[i] == 0x5a, "nothing before the caller's memory is touched");
    for (unsigned i = 0; i < 8; i++) CHECK(base[Z + i] == 0x5a, "nothing past the caller's memory is touched");
    REACH("zone");
}
void h_zone(void)
{
    unsigned m = nd_u8();
    if (m == 0) zone(0, 1); else if (m == 1) zone(1, 16); else if (m == 2) zone(4, 17); else if (m == 3) zone(7, 24);
    else if (m == 4) zone(2, 25); else if (m == 5) zone(0, 40); else if (m == 6) zone(7, 33); else if (m == 7) zone(3, 8);
}
#endif

static void create(int rf, int big)
{
    mempool st, *np = 0; unsigned bs, max, mn;
    if (big) { bs = nd_u32(); max = 3; mn = 1; } else { bs = 40; max = nd_u32(); mn = nd_u32(); }
    anysize = 1;
    CHECK(mempool_init(0, &mm, bs, max, mn) == -EINVAL && mempool_new(0, &mm, bs, max, mn) == -EINVAL, "no place for the pool is refused");
    refuse = rf == 1;
    int rc = mempool_init(&st, &mm, bs, max, mn);
    uint64_t units = max ? max : mn ? mn : 4096, b = bs < 16 ? 16 : bs;
    if (rc) {
        CHECK(nc == 0 && (rf == 1 || bs > 0xfffffff8u), "only memory can be short"); REACH("none");
    } else {
        CHECK(mempool_block_size(&st) >= b && mempool_block_size(&st) % 8 == 0, "a block holds what was asked");
        CHECK(nc == 1 && csz[0] >= 24 + units * mempool_block_size(&st), "a chunk is as large as its blocks");
        CHECK(mempool_total_blocks(&st) == max, "the limit is reported");
        mempool_fini(&st);
        CHECK(!live[0], "finalisation releases the chunk");
        REACH("some");
    }
    refuse = 0; refuseat = rf; nc = 0;
    rc = mempool_new(&np, &mm, bs, max, mn);
    if (rc) {
        CHECK(rf || bs > 0xfffffff8u, "only memory can be short");
        for (int i = 0; i < NB; i++) CHECK(!live[i], "a failed creation keeps nothing");
        REACH("nonew");
        return;
    }
    CHECK(nc == 2 && csz[0] >= sizeof *np && csz[1] >= 24 + units * mempool_block_size(np) && np == C(0), "state and chunk are obtained");
    mempool_delete(np);
    for (int i = 0; i < NB; i++) CHECK(!live[i], "deletion releases every chunk and the state");
    REACH("new");
}
void h_create(void)
{
    unsigned c = nd_u8();
    if (c == 0) create(0, 0); else if (c == 1) create(1, 0); else if (c == 2) create(2, 0);
    else if (c == 3) create(0, 1); else if (c == 4) create(1, 1); else if (c == 5) create(2, 1);
}

void h_align(void)
{
    mempool st; unsigned mis = nd_small(0, 7);
    anysize = 1; nc = 0; off = mis;
    if (mempool_init(&st, &mm, 16, 2, 0)) { CHECK(0, "the pool is created"); return; }
    for (int i = 0; i < 2; i++) {
        unsigned char *q = mempool_alloc(&st);
        CHECK(q != 0, "the block is handed out");
        uint64_t o = (uint64_t)(q - (unsigned char *)pool);
        CHECK(o % 8 == 0, "the block is aligned");
        CHECK(o >= mis && o + 16 <= mis + csz[0], "the block is inside its chunk");
    }
    REACH("aligned");
}
