//@ prop C35
//@ srcs src/hashtable/hashtab.c src/hashtable/hashtab_iter.c
//@ default unwind=5 timeout=600 mem=8 cc="-include devirt.h"
//@ job name=iter subst="\(\*p->cmp\)\(@@vh_cmp(p->cmp, " for=J:0..3 bound="two inserts over 3 keys with every 32-bit hash of each and every seed into a table of 2 buckets, memory refused to the iterator or not, then a walk over all entries (0), in sorted order (1), or over the entries colliding with a key (2), and one step past the end, locks counted" D=N=2,F=0,GROW=0,REF=9,O=0,LOCKS=1,RF={J//3},ST={4+J%3}
//@ job name=iter1 subst="\(\*p->cmp\)\(@@vh_cmp(p->cmp, " entry=h_iter for=J:0..2 bound="the same after an insert and a removal (empty or one entry)" D=N=2,F=0,GROW=0,REF=9,O=12,LOCKS=1,RF=0,ST={4+J}
#define h_ops h_iter
#define ITERMEM 1
#include "htab.c"
void vh_lock(void (*f)(void *), void *o) { if (f) { CHECK(f == lk_lock, "the lock function is kept"); lk_lock(o); } }
void vh_unlock(void (*f)(void *), void *o) { if (f) { CHECK(f == lk_unlock, "the unlock function is kept"); lk_unlock(o); } }
void *vh_alloc(void *(*f)(void *, size_t), void *c, size_t n) { CHECK(f == xalloc, "the allocator is kept"); return xalloc(c, n); }
void vh_free(void (*f)(void *, void *), void *c, void *p) { CHECK(f == xfree, "the allocator is kept"); xfree(c, p); }
int vh_cmp(void *f, const void *a, const void *b) { CHECK(f == (void *)cmp, "the comparison is kept"); return cmp(a, b); }
