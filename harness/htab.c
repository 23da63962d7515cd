//@ prop C34
//@ srcs src/hashtable/hashtab.c
//@ default unwind=5 timeout=600 mem=8
//@ job name=ops entry=h_ops for=J:0..15 bound="an insert and then any of insert, replace, probe, removal and then lookup, apply, remove_if or delete, over 3 keys with every 32-bit hash of each (all collisions) and every seed, in a table of 2 buckets" D=N=2,F=0,GROW=0,REF=9,O={J%4*4},ST={J//4}
//@ job name=refuse entry=h_ops for=J:0..3 bound="the same with memory refused at the first or the second operation" D=N=2,F=0,GROW=0,REF={J%2+1},O={J//2*8},ST=0
//@ job name=grow entry=h_ops for=J:0..2 bound="the same with the table growing from 2 to 4 buckets when both buckets are used" D=N=2,F=50,GROW=1,REF=9,O={J*4},ST=0
//@ job name=growref entry=h_ops bound="the same with memory refused when the table wants to grow" D=N=2,F=50,GROW=0,REF=9,O=0,ST=0
//@ job name=three entry=h_ops for=J:12,15/0..15 bound="three operations and a lookup" D=N=3,F=0,GROW=0,REF=9,O={J},ST=0
#include "vh.h"
#include <string.h>
#include <errno.h>
#include <stdlib.h>
#include "hashtab_imp.h"

#define K 3
#define NBK (GROW ? 8 : 2)
#define OP(i) ((i) == 0 ? 0 : (i) == 1 ? (O) / 4 : (O) % 4)
struct item { uint8_t key, dead, seen; };
static struct item it[N + 1];
static struct item *cur[K];
static uint32_t hv[K], seed;
static int refuse, ctx;

uint32_t arc4random(void) { return seed; }
static uint32_t hash(const void *p) { const struct item *q = p; CHECK(!q->dead, "the table does not touch a datum it has released"); return hv[q->key]; }
static int cmp(const void *a, const void *b)
{
    const struct item *x = a, *y = b;
    CHECK(!x->dead && !y->dead, "the table does not touch a datum it has released");
    return (int)x->key - (int)y->key;
}
static void dtor(void *p) { struct item *q = p; CHECK(!q->dead, "every datum is released once"); q->dead = 1; }
/* memory for each step: a node or table and an array of buckets (typed so the solver sees fields, not bytes) */
static struct hash_table tabmem;
static struct hash_node small[N + 1];
static struct hash_bucket b0[2], b1[GROW ? 4 : 1], b2[GROW ? 8 : 1];
static struct hash_bucket *const big[] = { b0, b1, b2, b2 };
static uint8_t us[N + 1], ub[N + 1]; static int step;
#ifdef ITERMEM
static void *itp, *ndp;
#ifdef VH_CBMC
void qsort(void *b, size_t n, size_t sz, int (*f)(const void *, const void *))
{
    struct indir_node *a = b;
    CHECK(sz == sizeof *a && n == 2, "the array handed to qsort is the list of entries");
    if (n == 2 && f(a, a + 1) > 0) { struct indir_node x = a[0]; a[0] = a[1]; a[1] = x; }
}
#endif
#endif
static void *xalloc(void *x, size_t n)
{
    CHECK(x == &ctx, "the allocator gets its context");
    if (refuse) return 0;
    if (step == 0 && !us[0]) {
        CHECK(n <= sizeof tabmem, "the table asks for the memory it needs");
        us[0] = 1; return &tabmem;
    }
#ifdef ITERMEM
    static struct hash_table_iter itmem; static struct indir_node nodes[N];
    if (step == 3 && !itp) { CHECK(n <= sizeof itmem, "the iterator asks for the memory it needs"); itp = &itmem; return &itmem; }
    if (step == 3) { CHECK(n <= sizeof nodes, "the iterator asks for the memory it needs"); ndp = nodes; return nodes; }
#endif
    if (step && !GROW && n > sizeof small[0]) return 0;
    if (n <= sizeof small[0] && !us[step]) { us[step] = 1; return &small[step]; }
    CHECK(n <= (step ? sizeof b2 : sizeof b0), "the table asks for the memory it needs");
    ASSUME(n <= (step ? sizeof b2 : sizeof b0) && !ub[step]);
    ub[step] = 1;
    return big[step];
}
#ifdef VH_CBMC
/* memset by fields rather than bytes (only ever used to clear these objects) */
void *memset(void *p, int c, size_t n)
{
#ifdef ITERMEM
    static const struct hash_table_iter zi;
    if (p == itp) { *(struct hash_table_iter *)p = zi; return p; }
#endif
    static const struct hash_table zt; static const struct hash_bucket zb;
    CHECK(c == 0, "MODEL: memset clears");
    if (p == &tabmem) { CHECK(n <= sizeof tabmem, "memory set is in bounds"); tabmem = zt; return p; }
    struct hash_bucket *b = p;
    CHECK(n % sizeof *b == 0, "MODEL: memset of whole buckets");
    for (size_t i = 0; i < NBK && i * sizeof *b < n; i++) b[i] = zb;
    return p;
}
#endif
static void xfree(void *x, void *p)
{
    CHECK(x == &ctx, "the allocator gets its context");
    int ok = p == 0;
    if (p == &tabmem && us[0]) { us[0] = 0; ok = 1; }
    for (int i = 0; i < N + 1; i++) {
        if (i && p == &small[i] && us[i]) { us[i] = 0; ok = 1; }
        if (p == big[i] && ub[i]) { ub[i] = 0; ok = 1; }
    }
#ifdef ITERMEM
    if (p && p == itp) { itp = 0; ok = 1; }
    if (p && p == ndp) { ndp = 0; ok = 1; }
#endif
    CHECK(ok, "only memory in use is released, once");
}
static int inuse(void)
{
    int n = 0;
    for (int i = 0; i < N + 1; i++) n += us[i] + ub[i];
#ifdef ITERMEM
    n += (ndp != 0) + (itp != 0);
#endif
    return n;
}
static void see(void *c, const void *p)
{
    struct item *q = (struct item *)p;
    CHECK(c == &ctx, "the function gets its cookie");
    q->seen++;
}
static uint8_t pick;
static int pred(void *c, const void *p)
{
    const struct item *q = p;
    CHECK(c == &ctx, "the function gets its cookie");
    return (pick >> q->key) & 1;
}
static hash_table_t t;
#ifdef LOCKS
#define NL 12
static struct { uint8_t made, held; } lk[NL]; static int nl, nmade, nheld_;
static void lk_lock(void *o)
{
    size_t i = (size_t)((char *)o - (char *)lk) / sizeof lk[0];
    CHECK(i < NL && lk[i].made && !lk[i].held, "a lock is never taken twice or after it is gone");
    ASSUME(i < NL);
    lk[i].held = 1; nheld_++;
}
static void lk_unlock(void *o)
{
    size_t i = (size_t)((char *)o - (char *)lk) / sizeof lk[0];
    CHECK(i < NL && lk[i].held, "only a lock that is held is released");
    ASSUME(i < NL);
    lk[i].held = 0; nheld_--;
}
static void lk_del(void *o)
{
    size_t i = (size_t)((char *)o - (char *)lk) / sizeof lk[0];
    CHECK(i < NL && lk[i].made && !lk[i].held, "a lock is deleted once, when it is free");
    ASSUME(i < NL);
    lk[i].made = 0; nmade--;
}
static void lk_new(lockmgr *m)
{
    int i = nl++;
    CHECK(i < NL, "MODEL: enough locks"); ASSUME(i < NL);
    lk[i].made = 1; nmade++;
    m->lock = lk_lock; m->unlock = lk_unlock; m->dtor = lk_del; m->opaq = &lk[i];
}
#define FREE_LOCKS() CHECK(nheld_ == 0, "no operation leaves a lock held")
#else
#define lk_new 0
#define FREE_LOCKS()
#endif
static void look(uint8_t k)
{
    struct item q = { k, 0, 0 }; void *r = &q;
    int f = hash_table_lookup(t, &q, &r);
    if (cur[k]) CHECK(f == 1 && r == cur[k], "lookup returns the datum last stored for a key");
    else        CHECK(f == 0 && r == 0, "lookup finds nothing for a key that is not stored");
}
static void stats(void)
{
    hash_table_stat st; size_t n = 0;
    CHECK(hash_table_stats(t, &st) == &st, "statistics are returned");
    for (int k = 0; k < K; k++) n += cur[k] != 0;
    CHECK(st.nodes == n, "the node count is the number of live entries");
    CHECK(st.fill <= n && (st.fill > 0) == (n > 0), "the fill level counts buckets in use");
}

void h_ops(void)
{
    hash_table_policy pol = { .hash = hash, .cmp = cmp, .dtor = dtor, .fillmax = F, .logsize = 1, .lock = { .create = lk_new },
                              .mem = { .alloc = xalloc, .free = xfree, .context = &ctx } };
    seed = nd_u32();
    for (int k = 0; k < K; k++) hv[k] = nd_u32();
    int e = hash_table_new(&t, &pol);
    CHECK(e == 0, "a table can be created");
    for (int i = 0; i < N; i++) {
        uint8_t k = nd_small(0, K - 1), op = OP(i);
        struct item *q = &it[i]; void *r;
        q->key = k;
        int l0 = inuse(); step = i + 1; refuse = step == REF;
        switch (op) {
        case 0:
            e = hash_table_insert(t, q);
            if (cur[k]) CHECK(e == -EEXIST, "a duplicate insert is refused");
            else if (e) { CHECK(e == -ENOMEM && inuse() == l0, "a failed insert changes nothing");  }
            else cur[k] = q;
            break;
        case 1:
            e = hash_table_replace(t, q);
            if (cur[k]) {
                CHECK(e == 0, "replacing succeeds");
                CHECK(cur[k]->dead, "a replaced datum is released");
                cur[k] = q;
                
            } else if (e) CHECK(e == -ENOMEM && inuse() == l0, "a failed replace changes nothing");
            else cur[k] = q;
            break;
        case 2:
            r = hash_table_probe(t, q);
            if (cur[k]) CHECK(r == cur[k], "a probe returns the datum that is there");
            else if (!r) CHECK(inuse() == l0, "a failed probe changes nothing");
            else { CHECK(r == q, "a probe stores and returns the new datum"); cur[k] = q; }
            break;
        case 3:
            r = 0;
            e = hash_table_remove(t, q, &r);
            if (cur[k]) {
                CHECK(e == 0 && r == cur[k] && cur[k]->dead, "removing releases the datum and names it");
                cur[k] = 0;
                
            } else CHECK(e == -ENOENT, "removing a key that is not stored fails");
            break;
        default:
            look(k);
        }
        FREE_LOCKS();
        for (int k2 = 0; k2 < K; k2++) CHECK(!cur[k2] || !cur[k2]->dead, "a stored datum is not released");
    }
#if ST == 0
    look(nd_small(0, K - 1));
    stats();
#elif ST == 1
    hash_table_apply(t, see, &ctx);
    for (int i = 0; i < N; i++) CHECK(it[i].seen == (cur[it[i].key] == &it[i]), "apply visits every entry once");
#elif ST == 2
    pick = nd_u8();
    int n = 0;
    for (int k = 0; k < K; k++) if (cur[k] && ((pick >> k) & 1)) n++;
    CHECK(hash_table_remove_if(t, pred, &ctx) == n, "remove_if counts what it removed");
    for (int k = 0; k < K; k++) if (cur[k] && ((pick >> k) & 1)) { CHECK(cur[k]->dead, "a removed datum is released"); cur[k] = 0; }
    look(nd_small(0, K - 1));
    stats();
#elif ST >= 4
    hash_table_iter_t h = 0; void *q; int want[N], n = 0, seen[N] = { 0 }, last = -1;
    struct item kk = { nd_small(0, K - 1), 0, 0 };
    for (int i = 0; i < N; i++) {
        want[i] = cur[it[i].key] == &it[i];
        if (ST == 6 && ((hv[it[i].key] ^ hv[kk.key]) & 1)) want[i] = 0;
    }
    step = 3; refuse = RF; int u0 = inuse();
    e = ST == 6 ? hash_table_bucket_iter_new(&h, t, &kk) : hash_table_iter_new(&h, t, ST == 5);
    FREE_LOCKS();
#if RF
    CHECK(e == -ENOMEM && inuse() == u0, "an iterator that cannot be made leaves nothing behind");
#else
    CHECK(e == 0, "an iterator is made");
    ASSUME(e == 0);
    e = hash_table_iter_first(h);
    FREE_LOCKS();
    for (int i = 0; i < N; i++) {
        q = hash_table_iter_item(h);
        FREE_LOCKS();
        CHECK((q == 0) == (e != 0), "first and next report the end exactly when no item is left");
        if (!q) break;
        CHECK(q == &it[0] || q == &it[1], "an iterator returns stored data");
        ASSUME(q == &it[0] || q == &it[1]);
        int j = q == &it[1];
        CHECK(want[j], "an iterator visits only the entries asked for");
        CHECK(!seen[j], "an iterator visits an entry once");
        seen[j] = 1; n++;
        if (ST == 5) { CHECK((int)it[j].key > last, "a sorted iterator visits in order"); last = it[j].key; }
        e = hash_table_iter_next(h);
        FREE_LOCKS();
    }
    for (int i = 0; i < N; i++) CHECK(seen[i] == want[i], "an iterator visits every entry asked for");
    CHECK(hash_table_iter_item(h) == 0, "at the end there is no item");
    CHECK(hash_table_iter_next(h) != 0 && hash_table_iter_item(h) == 0, "stepping past the end stays at the end");
    hash_table_iter_delete(h);
    FREE_LOCKS();
    CHECK(inuse() == u0, "deleting an iterator releases its memory");
#endif
#else
    hash_table_delete(t);
    for (int k = 0; k < K; k++) if (cur[k]) CHECK(cur[k]->dead, "deleting the table releases every datum");
    CHECK(inuse() == 0, "deleting the table releases all its memory");
#endif
    FREE_LOCKS();
#if defined LOCKS && ST == 3
    CHECK(nmade == 0, "deleting the table deletes every lock");
#endif
    REACH("done");
}
