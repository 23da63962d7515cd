/* For the iterator jobs: call the harness's lock and memory functions directly, after checking that they are the ones stored,
 * instead of through a pointer CBMC cannot resolve. */
#include "utils/lockmgr.h"
#include "utils/memmgr.h"
extern void  vh_lock(void (*f)(void *), void *o), vh_unlock(void (*f)(void *), void *o);
extern void *vh_alloc(void *(*f)(void *, size_t), void *c, size_t n);
extern void  vh_free(void (*f)(void *, void *), void *c, void *p);
#undef lockmgr_lock
#undef lockmgr_unlock
#undef memmgr_alloc
#undef memmgr_free
#define lockmgr_lock(m)   vh_lock((m)->lock, (m)->opaq)
#define lockmgr_unlock(m) vh_unlock((m)->unlock, (m)->opaq)
#define memmgr_alloc(m, s) vh_alloc((m)->alloc, (m)->context, s)
#define memmgr_free(m, p)  vh_free((m)->free, (m)->context, p)
extern int vh_cmp(void *, const void *, const void *);
